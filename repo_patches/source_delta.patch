From 795c56ad878170c415846458c76eedfee291a546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 01/25] fix: decode DECIMAL without padding the first digit
 group and zero as 0

---
 replication/binlog_event_rbr.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 4bc3da3..5bc1970 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -677,22 +677,22 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 			if flag { //当txt有正整数写入
 				fmt.Fprintf(txt, "%09d", val)
 			} else if val > 0 { //当txt无正整数且val>0时 才能写入
-				fmt.Fprintf(txt, "%9d", val)
+				fmt.Fprintf(txt, "%d", val)
 				flag = true
 			}
 			pos += 4
 		}
 
+		//当txt无正整数，此时需要加上0，表示生成的数整数部分没有值。
+		if !flag {
+			txt.WriteByte('0')
+		}
+
 		// now see if we have a fraction
 		if scale == 0 {
 			return txt.Bytes(), l, nil
 		}
 
-		//当txt无正整数，此时需要在小数点前加上0，表示生成的数整数部分没有值。
-		if !flag {
-			txt.WriteByte('0')
-		}
-
 		txt.WriteByte('.')
 
 		// now the full fractional digits
-- 
2.43.0


From 1ea6c0682682b1653723dd6e6a230e88e285f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 02/25] fix: keep the sign and zero-pad the hour of negative
 old-format TIME values

---
 replication/binlog_event_rbr.go | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 5bc1970..61c0d1d 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -405,25 +405,19 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 		return []byte(fmt.Sprintf("%04d-%02d-%02d", year, month, day)), 3, nil
 
 	case TypeTime:
-		var hour, minute, second int32
+		val := int32(uint32(data[pos]) +
+			uint32(data[pos+1])<<8 +
+			uint32(data[pos+2])<<16)
+		sign := ""
 		if data[pos+2]&128 > 0 {
-			// Negative number, have to extend the sign.
-			val := int32(uint32(data[pos]) +
-				uint32(data[pos+1])<<8 +
-				uint32(data[pos+2])<<16 +
-				uint32(255)<<24)
-			hour = val / 10000
-			minute = -((val % 10000) / 100)
-			second = -(val % 100)
-		} else {
-			val := int32(data[pos]) +
-				int32(data[pos+1])<<8 +
-				int32(data[pos+2])<<16
-			hour = val / 10000
-			minute = (val % 10000) / 100
-			second = val % 100
+			// Negative number, 24 bits two's complement.
+			val = 1<<24 - val
+			sign = "-"
 		}
-		return []byte(fmt.Sprintf("%02d:%02d:%02d", hour, minute, second)), 3, nil
+		hour := val / 10000
+		minute := (val % 10000) / 100
+		second := val % 100
+		return []byte(fmt.Sprintf("%v%02d:%02d:%02d", sign, hour, minute, second)), 3, nil
 
 	case TypeDateTime:
 		val := binary.LittleEndian.Uint64(data[pos : pos+8])
-- 
2.43.0


From 347af04320cafbc3a9228fecc49415b4db5f96e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:47 +0000
Subject: [PATCH 03/25] fix: do not hand out the shared bytes of ZeroTimestamp

---
 replication/binlog_event_rbr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 61c0d1d..5fa7017 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -314,7 +314,8 @@ func cellLength(data []byte, pos int, typ byte, metadata uint16) (int, error) {
 // and return the Buffer.
 func printTimestamp(v uint32) *bytes.Buffer {
 	if v == 0 {
-		return bytes.NewBuffer(ZeroTimestamp)
+		// copy it: the bytes are handed out and may be changed or appended to.
+		return bytes.NewBuffer(append([]byte(nil), ZeroTimestamp...))
 	}
 
 	t := time.Unix(int64(v), 0).Local()
-- 
2.43.0


From dc6a6c486428a8bcb91e6b7bbafc97e931cdf016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:47 +0000
Subject: [PATCH 04/25] fix: decode the magnitude of negative TIME scalars in
 JSON

---
 replication/binlog_event_json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 91d5ad4..a617d46 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -381,6 +381,11 @@ func printJSONDate(data []byte, toplevel bool, result *bytes.Buffer) error {
 
 func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 	raw := binary.LittleEndian.Uint64(data[:8])
+	negative := int64(raw) < 0
+	if negative {
+		// a negative time is stored as the negated packed value.
+		raw = -raw
+	}
 	value := raw >> 24
 	hour := (value >> 12) & 0x03ff // 10 bits starting at 12th
 	minute := (value >> 6) & 0x3f  // 6 bits starting at 6th
@@ -391,7 +396,7 @@ func printJSONTime(data []byte, toplevel bool, result *bytes.Buffer) error {
 		result.WriteString("CAST(")
 	}
 	result.WriteString("CAST('")
-	if value&0x8000000000 != 0 {
+	if negative {
 		result.WriteByte('-')
 	}
 	fmt.Fprintf(result, "%02d:%02d:%02d", hour, minute, second)
-- 
2.43.0


From 1a9e402b304f8a3bce434d02fd7002b237963638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:48 +0000
Subject: [PATCH 05/25] fix: escape reserved characters in JSON strings and
 keys

---
 replication/binlog_event_json.go | 33 ++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index a617d46..6d2fa20 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -113,7 +113,7 @@ func printJSONObject(data []byte, large bool, result *bytes.Buffer) error {
 			result.WriteByte(',')
 		}
 		result.WriteByte('\'')
-		result.Write(keys[i])
+		printSQLEscaped(keys[i], result)
 		result.WriteByte('\'')
 		result.WriteByte(',')
 
@@ -323,8 +323,7 @@ func printJSONString(data []byte, toplevel bool, result *bytes.Buffer) {
 	// So the value should be: '"value"'.
 	if toplevel {
 		result.WriteString("'\"")
-		// FIXME(alainjobart): escape reserved characters
-		result.Write(data[pos : pos+size])
+		printSQLEscaped(jsonEscape(data[pos:pos+size]), result)
 		result.WriteString("\"'")
 		return
 	}
@@ -332,10 +331,36 @@ func printJSONString(data []byte, toplevel bool, result *bytes.Buffer) {
 	// Inside a JSON_ARRAY() or JSON_OBJECT method, we just print the string
 	// as SQL string.
 	result.WriteByte('\'')
-	result.Write(data[pos : pos+size])
+	printSQLEscaped(data[pos:pos+size], result)
 	result.WriteByte('\'')
 }
 
+// printSQLEscaped prints the content of a single-quoted SQL string.
+func printSQLEscaped(data []byte, result *bytes.Buffer) {
+	for _, b := range data {
+		if b == '\'' || b == '\\' {
+			result.WriteByte('\\')
+		}
+		result.WriteByte(b)
+	}
+}
+
+// jsonEscape escapes the reserved characters of a JSON string.
+func jsonEscape(data []byte) []byte {
+	escaped := make([]byte, 0, len(data))
+	for _, b := range data {
+		switch {
+		case b == '"' || b == '\\':
+			escaped = append(escaped, '\\', b)
+		case b < 0x20:
+			escaped = append(escaped, fmt.Sprintf("\\u%04x", b)...)
+		default:
+			escaped = append(escaped, b)
+		}
+	}
+	return escaped
+}
+
 func printJSONOpaque(data []byte, toplevel bool, result *bytes.Buffer) error {
 	typ := data[0]
 	size, pos := readVariableLength(data, 1)
-- 
2.43.0


From afcb3964d6fee9e08175019804810591693dc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 06/25] fix: MariadbGTIDSet.AddGTID must not change the set it
 adds to

---
 replication/mariadb_gtid.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/replication/mariadb_gtid.go b/replication/mariadb_gtid.go
index 892abcd..d793b35 100644
--- a/replication/mariadb_gtid.go
+++ b/replication/mariadb_gtid.go
@@ -186,15 +186,17 @@ func (gtidSet MariadbGTIDSet) AddGTID(other GTID) GTIDSet {
 	if !ok || other == nil {
 		return gtidSet
 	}
-	for i, gtid := range gtidSet {
+	newSet := make(MariadbGTIDSet, len(gtidSet), len(gtidSet)+1)
+	copy(newSet, gtidSet)
+	for i, gtid := range newSet {
 		if mdbOther.Domain == gtid.Domain {
 			if mdbOther.Sequence > gtid.Sequence {
-				gtidSet[i] = mdbOther
+				newSet[i] = mdbOther
 			}
-			return gtidSet
+			return newSet
 		}
 	}
-	return append(gtidSet, mdbOther)
+	return append(newSet, mdbOther)
 }
 
 func init() {
-- 
2.43.0


From df7dcafd58209e617bcab12a7e4b304df8f389fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0000
Subject: [PATCH 07/25] fix: recognise statements whose keyword is not followed
 by a blank or follows comments

---
 mysql_types.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/mysql_types.go b/mysql_types.go
index 99be901..4b696db 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -78,7 +78,8 @@ func (s StatementType) IsDDL() bool {
 
 //GetStatementCategory we can get statement type from a SQL
 func GetStatementCategory(sql string) StatementType {
-	if i := strings.IndexByte(sql, byte(' ')); i >= 0 {
+	sql = skipSpaceAndComments(sql)
+	if i := strings.IndexFunc(sql, isNotKeywordChar); i >= 0 {
 		sql = sql[:i]
 	}
 	if s, ok := statementPrefixes[strings.ToLower(sql)]; ok {
@@ -87,6 +88,32 @@ func GetStatementCategory(sql string) StatementType {
 	return StatementUnknown
 }
 
+//isNotKeywordChar 是否是不能组成关键字的字符
+func isNotKeywordChar(r rune) bool {
+	return !(r == '_' || r == '$' || r >= 0x80 ||
+		('0' <= r && r <= '9') || ('a' <= r && r <= 'z') || ('A' <= r && r <= 'Z'))
+}
+
+//skipSpaceAndComments 跳过语句开头的空白以及注释
+func skipSpaceAndComments(sql string) string {
+	for {
+		sql = strings.TrimLeft(sql, " \t\n\v\f\r")
+		start, end := 1, "\n"
+		switch {
+		case strings.HasPrefix(sql, "/*"):
+			start, end = 2, "*/"
+		case strings.HasPrefix(sql, "#"), strings.HasPrefix(sql, "--"):
+		default:
+			return sql
+		}
+		i := strings.Index(sql[start:], end)
+		if i < 0 {
+			return ""
+		}
+		sql = sql[start+i+len(end):]
+	}
+}
+
 //列数据类型
 const (
 	columnTypeDecimal    ColumnType = replication.TypeDecimal    //精确实数
-- 
2.43.0


From c9249197b5e544b6f36ef79300c751449c352382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 08/25] fix: keep the resume position before a transaction the
 handler did not accept

---
 streamer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/streamer.go b/streamer.go
index 8aaecd0..ca623a3 100755
--- a/streamer.go
+++ b/streamer.go
@@ -121,13 +121,14 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	}
 
 	commit := func(ev replication.BinlogEvent) error {
-		now := pos
-		pos.Offset = ev.NextPosition()
 		next := pos
-		tran := newTransaction(now, next, int64(ev.Timestamp()), tranEvents)
+		next.Offset = ev.NextPosition()
+		tran := newTransaction(pos, next, int64(ev.Timestamp()), tranEvents)
 		if err = s.sendTransaction(tran); err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
+		// Only an accepted transaction advances the position to resume from.
+		pos = next
 		tranEvents = nil
 		autocommit = true
 		return nil
-- 
2.43.0


From a231068d1543b08d6d58c83ef6fb4940663dba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 09/25] fix: keep the resume position when a table has an
 unexpected number of columns

---
 streamer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/streamer.go b/streamer.go
index ca623a3..73de6f4 100755
--- a/streamer.go
+++ b/streamer.go
@@ -279,10 +279,9 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 
 			if len(info.Columns()) != tm.CanBeNull.Count() {
-				return Position{},
-					newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
-						"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
-						len(info.Columns())))
+				return pos, newError(fmt.Errorf("parseEvents the length of column in tableMap(%d) "+
+					"did not equal to the length of column in table info(%d)", tm.CanBeNull.Count(),
+					len(info.Columns())))
 			}
 			tc.table = info
 			tablesMaps[tableID] = tc
-- 
2.43.0


From 7b9512687fe6b24e93cbfc496a4275739ff953ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:12 +0000
Subject: [PATCH 10/25] fix: look the table up again when a table id is
 announced for another table

---
 streamer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/streamer.go b/streamer.go
index 73de6f4..e3489d6 100755
--- a/streamer.go
+++ b/streamer.go
@@ -262,8 +262,9 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			_log.Debugf("parseEvents pos: %+v binlog event is a table map event, tableID: %v table map: %+v",
 				pos, tableID, *tm)
 
-			if _, ok = tablesMaps[tableID]; ok {
-				tablesMaps[tableID].tableMap = tm
+			if cached, ok := tablesMaps[tableID]; ok && cached.tableMap.Database == tm.Database &&
+				cached.tableMap.Name == tm.Name && cached.tableMap.CanBeNull.Count() == tm.CanBeNull.Count() {
+				cached.tableMap = tm
 				continue
 			}
 
-- 
2.43.0


From 08b991b4ef9970027144538fb1445f141b2ee1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:11 +0000
Subject: [PATCH 11/25] fix: report a short error packet of the master instead
 of panicking

---
 slave_connection.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slave_connection.go b/slave_connection.go
index 4f5afb7..c3ac286 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -2,6 +2,7 @@ package gobinlog
 
 import (
 	"context"
+	"fmt"
 	"sync"
 
 	"github.com/Breeze0806/gobinlog/replication"
@@ -115,6 +116,10 @@ func (s *slaveConnection) readBinlogEvent() (replication.BinlogEvent, *Error) {
 	case mysql.PacketEOF:
 		return nil, newError(errStreamEOF).msgf("readBinlogEvent reach end")
 	case mysql.PacketERR:
+		// The driver expects an error number, and a whole SQL state if there is one.
+		if len(buf) < 4 || buf[3] == '#' && len(buf) < 9 {
+			return nil, newError(fmt.Errorf("malformed error packet: %x", buf)).msgf("fetch error packet")
+		}
 		return nil, newError(s.dc.HandleErrorPacket(buf)).msgf("fetch error packet")
 	default:
 	}
-- 
2.43.0


From 0f27646acb945cab57315fadfc1a72ff47de508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 12/25] fix: stop the reader goroutine when Stream returns

---
 streamer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/streamer.go b/streamer.go
index e3489d6..2ae3a13 100755
--- a/streamer.go
+++ b/streamer.go
@@ -71,7 +71,10 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.sendTransaction = sendTransaction
 	var events <-chan replication.BinlogEvent
 	var pos Position
-	events, err = conn.startDumpFromBinlogPosition(ctx, s.serverID, s.binlogPosition())
+	// Nobody takes events any more when Stream returns, the reader has to stop then.
+	readerCtx, stopReader := context.WithCancel(ctx)
+	defer stopReader()
+	events, err = conn.startDumpFromBinlogPosition(readerCtx, s.serverID, s.binlogPosition())
 	if err != nil {
 		return err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos)
 	}
-- 
2.43.0


From e0bf5745f696dbe59ef7ea4f2bc3e3ffa93c4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 13/25] fix: Error() must not block when no dump has been
 started

---
 streamer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/streamer.go b/streamer.go
index 2ae3a13..075617a 100755
--- a/streamer.go
+++ b/streamer.go
@@ -61,6 +61,7 @@ func (s *Streamer) binlogPosition() Position {
 //Stream 注册一个处理事务信息函数到Stream中
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
+	s.errChan = nil
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
@@ -89,6 +90,10 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 
 //Error 每次使用Stream后需要检测Error
 func (s *Streamer) Error() error {
+	// There is nothing to wait for when the last Stream did not start a dump.
+	if s.errChan == nil {
+		return nil
+	}
 	select {
 	case err, ok := <-s.errChan:
 		if ok {
-- 
2.43.0


From fc8777093c1e3b2a38ad701d55d0fb608f847fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 14/25] fix: return an error instead of panicking when an event
 cannot be decoded

---
 streamer.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/streamer.go b/streamer.go
index 075617a..96c1b85 100755
--- a/streamer.go
+++ b/streamer.go
@@ -111,7 +111,7 @@ func (s *Streamer) Error() error {
 	}
 }
 
-func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (Position, *Error) {
+func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.BinlogEvent) (endPos Position, endErr *Error) {
 	var tranEvents []*StreamEvent
 	var format replication.BinlogFormat
 	var err error
@@ -119,6 +119,19 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	tablesMaps := make(map[uint64]*tableCache)
 	autocommit := true
 
+	// The body of an event may be shorter than its content says. A panic of the
+	// handler or the table mapper is not ours to handle, though.
+	calling := false
+	defer func() {
+		if calling {
+			return
+		}
+		if r := recover(); r != nil {
+			endPos = pos
+			endErr = newError(fmt.Errorf("%v", r)).msgf("parseEvents can't decode binlog event.")
+		}
+	}()
+
 	begin := func() {
 		if tranEvents != nil {
 			// If this happened, it would be a legitimate error.
@@ -132,7 +145,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 		next := pos
 		next.Offset = ev.NextPosition()
 		tran := newTransaction(pos, next, int64(ev.Timestamp()), tranEvents)
-		if err = s.sendTransaction(tran); err != nil {
+		calling = true
+		err = s.sendTransaction(tran)
+		calling = false
+		if err != nil {
 			return fmt.Errorf("sendTransaction error: %v", err)
 		}
 		// Only an accepted transaction advances the position to resume from.
@@ -283,7 +299,10 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			name := NewMysqlTableName(tm.Database, tm.Name)
 
 			var info MysqlTable
-			if info, err = s.tableMapper.MysqlTable(name); err != nil {
+			calling = true
+			info, err = s.tableMapper.MysqlTable(name)
+			calling = false
+			if err != nil {
 				return pos, newError(err).msgf("parseEvents MysqlTable fail. table: %v", err)
 			}
 
-- 
2.43.0


From 80dddba33c742773c6d0fddbf564ee1b0d8d3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:56 +0000
Subject: [PATCH 15/25] fix: do not loop forever on row data of an event
 without columns

---
 replication/binlog_event_rbr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index 5fa7017..fd33c28 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -931,6 +931,10 @@ func (ev binlogEvent) Rows(f BinlogFormat, tm *TableMap) (Rows, error) {
 		numDataColumns = result.DataColumns.BitCount()
 	}
 
+	if numIdentifyColumns+numDataColumns == 0 && pos < len(data) {
+		return Rows{}, errors.New("rows without columns, data:" + hex.EncodeToString(data) + "pos:" + strconv.Itoa(pos))
+	}
+
 	// One row at a time.
 	for pos < len(data) {
 		row := Row{}
-- 
2.43.0


From 16b418e26b48e11f464ab61b40b72b1e86586aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 16/25] fix: keep reporting why the stream ended when Error()
 is called again

---
 streamer.go | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/streamer.go b/streamer.go
index 96c1b85..490c225 100755
--- a/streamer.go
+++ b/streamer.go
@@ -3,6 +3,7 @@ package gobinlog
 import (
 	"context"
 	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/Breeze0806/gobinlog/replication"
@@ -24,6 +25,8 @@ type Streamer struct {
 	sendTransaction SendTransactionFunc
 	errChan         <-chan *Error
 	ctx             context.Context
+	errMutex        sync.Mutex
+	lastErr         *Error //errChan中的错误，保证多次调用Error返回相同的结果
 }
 
 //SendTransactionFunc 处理事务信息函数，你可以将一个chan注册到这个函数中如
@@ -62,6 +65,7 @@ func (s *Streamer) binlogPosition() Position {
 func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFunc) error {
 	s.ctx = ctx
 	s.errChan = nil
+	s.lastErr = nil
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
 		return mysql.NewDumpConn(s.dsn, ctx)
 	})
@@ -94,20 +98,21 @@ func (s *Streamer) Error() error {
 	if s.errChan == nil {
 		return nil
 	}
-	select {
-	case err, ok := <-s.errChan:
-		if ok {
-			switch {
-			case s.ctx.Err() == context.Canceled:
-				return nil
-			case err.Original() == context.Canceled,
-				err.Original() == errStreamEOF:
-				return nil
-			default:
-				return err
-			}
-		}
+	s.errMutex.Lock()
+	defer s.errMutex.Unlock()
+	if err, ok := <-s.errChan; ok {
+		s.lastErr = err
+	}
+	switch {
+	case s.lastErr == nil:
+		return nil
+	case s.ctx.Err() == context.Canceled:
+		return nil
+	case s.lastErr.Original() == context.Canceled,
+		s.lastErr.Original() == errStreamEOF:
 		return nil
+	default:
+		return s.lastErr
 	}
 }
 
-- 
2.43.0


From 296a1bee15ae570794da8b16d85eeaac7fd8ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:12 +0000
Subject: [PATCH 17/25] fix: a cancellation after the stream has ended must not
 hide why it ended

---
 streamer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamer.go b/streamer.go
index 490c225..2a7e8ae 100755
--- a/streamer.go
+++ b/streamer.go
@@ -170,6 +170,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 		case ev, ok = <-events:
 			if !ok {
 				_log.Infof("parseEvents reached end of binlog event stream")
+				// The reader has told why, a cancellation from now on is not the reason.
+				s.ctx = context.Background()
 				return pos, nil
 			}
 		case <-ctx.Done():
-- 
2.43.0


From 0d273a85d65605fc64d2da280c597d599bbd19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 18/25] fix: close the connection without racing its reader,
 also while it is being set up

---
 slave_connection.go | 38 ++++++++++++++++++++++++++++++++++++++
 streamer.go         | 12 ++++++------
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/slave_connection.go b/slave_connection.go
index c3ac286..a34c584 100755
--- a/slave_connection.go
+++ b/slave_connection.go
@@ -17,6 +17,44 @@ type dumpConn interface {
 	HandleErrorPacket([]byte) error
 }
 
+// streamConn is a connection that the driver closes as soon as ctx is cancelled.
+type streamConn struct {
+	*mysql.DumpConn
+	ctx     context.Context
+	cancel  context.CancelFunc
+	watched bool
+}
+
+func newStreamConn(ctx context.Context, cancel context.CancelFunc, dsn string) (*streamConn, error) {
+	dc, err := mysql.NewDumpConn(dsn, ctx)
+	if err != nil {
+		return nil, err
+	}
+	return &streamConn{
+		DumpConn: dc,
+		ctx:      ctx,
+		cancel:   cancel,
+	}, nil
+}
+
+// Exec executes a statement without rows. The driver goes on watching ctx after
+// a successful QueryContext until its rows are closed, which never happens here.
+func (c *streamConn) Exec(query string) error {
+	_, err := c.QueryContext(c.ctx, query, nil)
+	c.watched = err == nil
+	return err
+}
+
+// Close makes the driver close the socket, unlike DumpConn.Close it leaves alone
+// the buffer that may be in use for reading a packet.
+func (c *streamConn) Close() error {
+	if !c.watched {
+		return c.DumpConn.Close()
+	}
+	c.cancel()
+	return nil
+}
+
 // slaveConnection 从github.com/youtube/vitess/go/vt/mysqlctl/slave_connection.go的基础上移植过来
 // slaveConn通过StartDumpFromBinlogPosition和mysql库进行binlog dump，将自己伪装成slave，
 // 先执行SET @master_binlog_checksum=@@global.binlog_checksum，然后发送 binlog dump包，
diff --git a/streamer.go b/streamer.go
index 2a7e8ae..77f2d31 100755
--- a/streamer.go
+++ b/streamer.go
@@ -7,7 +7,6 @@ import (
 	"sync/atomic"
 
 	"github.com/Breeze0806/gobinlog/replication"
-	"github.com/Breeze0806/mysql"
 )
 
 //MysqlTableMapper 用于获取表信息的接口
@@ -66,8 +65,12 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.ctx = ctx
 	s.errChan = nil
 	s.lastErr = nil
+	// Nobody takes events any more when Stream returns, the connection and its
+	// reader have to stop then.
+	connCtx, stopConn := context.WithCancel(ctx)
+	defer stopConn()
 	conn, err := newSlaveConnection(func() (conn dumpConn, e error) {
-		return mysql.NewDumpConn(s.dsn, ctx)
+		return newStreamConn(connCtx, stopConn, s.dsn)
 	})
 	if err != nil {
 		return err.msgf("newMysqlConn fail.")
@@ -76,10 +79,7 @@ func (s *Streamer) Stream(ctx context.Context, sendTransaction SendTransactionFu
 	s.sendTransaction = sendTransaction
 	var events <-chan replication.BinlogEvent
 	var pos Position
-	// Nobody takes events any more when Stream returns, the reader has to stop then.
-	readerCtx, stopReader := context.WithCancel(ctx)
-	defer stopReader()
-	events, err = conn.startDumpFromBinlogPosition(readerCtx, s.serverID, s.binlogPosition())
+	events, err = conn.startDumpFromBinlogPosition(connCtx, s.serverID, s.binlogPosition())
 	if err != nil {
 		return err.msgf("startDumpFromBinlogPosition fail in pos: %+v", s.nowPos)
 	}
-- 
2.43.0


From dc28f86369ed44e01eca6cfbcacff799254b3ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 19/25] fix: do not carry table ids over from one binlog file
 to the next

---
 streamer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/streamer.go b/streamer.go
index 77f2d31..53cd0b3 100755
--- a/streamer.go
+++ b/streamer.go
@@ -196,6 +196,9 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 			}
 			_log.Debugf("parseEvents pos: %+v binlog event is a format description event:%+v",
 				ev.NextPosition(), format)
+			// The server may have restarted before this file and number its tables
+			// anew, the cached tables don't belong to the ids any more.
+			tablesMaps = make(map[uint64]*tableCache)
 			continue
 		}
 
-- 
2.43.0


From 795032cd5e7af421282f3fd028398b5ed24480ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:44 +0000
Subject: [PATCH 20/25] fix: a damaged JSON value must not exhaust memory or
 stack

---
 replication/binlog_event_json.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 6d2fa20..75f06bd 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -92,6 +92,10 @@ func printJSONObject(data []byte, large bool, result *bytes.Buffer) error {
 		return fmt.Errorf("not enough data for object, have %v bytes need %v", len(data), size)
 	}
 
+	if err := checkJSONEntries(data, pos, elementCount, 4+3, 6+5, large); err != nil {
+		return err
+	}
+
 	// Build an array for each key.
 	keys := make([][]byte, elementCount)
 	for i := 0; i < elementCount; i++ {
@@ -138,6 +142,10 @@ func printJSONArray(data []byte, large bool, result *bytes.Buffer) error {
 		return fmt.Errorf("not enough data for object, have %v bytes need %v", len(data), size)
 	}
 
+	if err := checkJSONEntries(data, pos, elementCount, 3, 5, large); err != nil {
+		return err
+	}
+
 	// Now read each value, and output them.  The value entry is
 	// always one byte (the type), and then 2 or 4 bytes
 	// (depending on the large flag). If the value fits in the number of bytes,
@@ -162,6 +170,19 @@ func printJSONArray(data []byte, large bool, result *bytes.Buffer) error {
 	return nil
 }
 
+// checkJSONEntries checks that data holds the entries of elementCount elements
+// from pos on, an entry being smallSize or largeSize bytes long.
+func checkJSONEntries(data []byte, pos, elementCount, smallSize, largeSize int, large bool) error {
+	size := smallSize
+	if large {
+		size = largeSize
+	}
+	if elementCount > (len(data)-pos)/size {
+		return fmt.Errorf("not enough data for %v JSON elements, have %v bytes", elementCount, len(data))
+	}
+	return nil
+}
+
 // printJSONValueEntry prints an entry. The value entry is always one
 // byte (the type), and then 2 or 4 bytes (depending on the large
 // flag). If the value fits in the number of bytes, then it is
@@ -192,7 +213,10 @@ func printJSONValueEntry(data []byte, pos int, large bool, result *bytes.Buffer)
 	default:
 		// value is not inlined, we have its offset here.
 		// Note we don't have its length, so we just go to the end.
-		offset, _ := readOffsetOrSize(data, pos, large)
+		offset, end := readOffsetOrSize(data, pos, large)
+		if offset < end || offset > len(data) {
+			return fmt.Errorf("invalid offset in JSON: %v", offset)
+		}
 		if err := printJSONValue(typ, data[offset:], false /* toplevel */, result); err != nil {
 			return err
 		}
-- 
2.43.0


From 5a23633c2ae2c99a2c7e5a68475d52a6dfb6bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 21/25] fix: a rows event that ends up to 4 bytes early took
 the checksum for the rest of its values

StripChecksum left the checksum within the capacity of the event, so slices
beyond the end of the event succeeded: a rows event or table map whose last
value or bitmap was incomplete was decoded with checksum bytes in it instead of
ending the stream with an error.
---
 replication/binlog_event_mariadb.go | 2 +-
 replication/binlog_event_mysql56.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/replication/binlog_event_mariadb.go b/replication/binlog_event_mariadb.go
index dec802e..4d9e648 100755
--- a/replication/binlog_event_mariadb.go
+++ b/replication/binlog_event_mariadb.go
@@ -58,7 +58,7 @@ func (ev mariadbBinlogEvent) StripChecksum(f BinlogFormat) (BinlogEvent, []byte,
 		data := ev.Bytes()
 		length := len(data)
 		checksum := data[length-4:]
-		data = data[:length-4]
+		data = data[: length-4 : length-4]
 		return mariadbBinlogEvent{binlogEvent: binlogEvent(data)}, checksum, nil
 	}
 }
diff --git a/replication/binlog_event_mysql56.go b/replication/binlog_event_mysql56.go
index 820fc20..d3c4617 100755
--- a/replication/binlog_event_mysql56.go
+++ b/replication/binlog_event_mysql56.go
@@ -58,7 +58,7 @@ func (ev mysql56BinlogEvent) StripChecksum(f BinlogFormat) (BinlogEvent, []byte,
 		data := ev.Bytes()
 		length := len(data)
 		checksum := data[length-4:]
-		data = data[:length-4]
+		data = data[: length-4 : length-4]
 		return mysql56BinlogEvent{binlogEvent: binlogEvent(data)}, checksum, nil
 	default:
 		// MySQL 5.6 does not guarantee that future checksum algorithms will be
-- 
2.43.0


From ab6f1b3d25c6abd85027a438b8aea97c9af3ab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:21 +0000
Subject: [PATCH 22/25] fix: a JSON document that ends early was completed with
 bytes of the values behind it

---
 replication/binlog_event_rbr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/replication/binlog_event_rbr.go b/replication/binlog_event_rbr.go
index fd33c28..5928e01 100755
--- a/replication/binlog_event_rbr.go
+++ b/replication/binlog_event_rbr.go
@@ -787,7 +787,8 @@ func CellBytes(data []byte, pos int, typ byte, metadata uint16, isUnSignedInt bo
 
 		// For JSON, we parse the data, and emit SQL.
 		if typ == TypeJSON {
-			d, err := printJSONData(data[pos : pos+l])
+			// the document ends here, what follows belongs to other values.
+			d, err := printJSONData(data[pos : pos+l : pos+l])
 			if err != nil {
 				return nil, 0, fmt.Errorf("error parsing JSON data %v err: %v", data[pos:pos+l], err)
 			}
-- 
2.43.0


From 160856551fed78606e39d55445a8978d01f11ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 23/25] fix: a JSON scalar shorter than its type was completed
 with bytes of the values behind it

---
 replication/binlog_event_json.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/replication/binlog_event_json.go b/replication/binlog_event_json.go
index 75f06bd..204c784 100644
--- a/replication/binlog_event_json.go
+++ b/replication/binlog_event_json.go
@@ -388,6 +388,8 @@ func jsonEscape(data []byte) []byte {
 func printJSONOpaque(data []byte, toplevel bool, result *bytes.Buffer) error {
 	typ := data[0]
 	size, pos := readVariableLength(data, 1)
+	// what follows the value belongs to other values.
+	data = data[: pos+size : pos+size]
 
 	// A few types have special encoding.
 	switch typ {
-- 
2.43.0


From 35c98133a87d4d6eef07b6d0f349de1ee7dcff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:28 +0000
Subject: [PATCH 24/25] fix: keep the position of accepted transactions when
 the handler or table mapper panics

Who recovers from the panic and streams again got the transactions that had been accepted once more.
---
 streamer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streamer.go b/streamer.go
index 53cd0b3..d9da0e4 100755
--- a/streamer.go
+++ b/streamer.go
@@ -129,6 +129,8 @@ func (s *Streamer) parseEvents(ctx context.Context, events <-chan replication.Bi
 	calling := false
 	defer func() {
 		if calling {
+			// Who recovers from it may stream again, from here.
+			s.SetBinlogPosition(pos)
 			return
 		}
 		if r := recover(); r != nil {
-- 
2.43.0


From 3400e138c6f481b7459485d5f734a5155e4bc881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:21 +0000
Subject: [PATCH 25/25] fix: recognise a statement inside an executable comment

---
 mysql_types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mysql_types.go b/mysql_types.go
index 4b696db..cf4c821 100755
--- a/mysql_types.go
+++ b/mysql_types.go
@@ -100,6 +100,10 @@ func skipSpaceAndComments(sql string) string {
 		sql = strings.TrimLeft(sql, " \t\n\v\f\r")
 		start, end := 1, "\n"
 		switch {
+		case strings.HasPrefix(sql, "/*!"), strings.HasPrefix(sql, "/*M!"):
+			// The server executes what is in such a comment.
+			sql = strings.TrimLeft(sql[strings.Index(sql, "!")+1:], "0123456789")
+			continue
 		case strings.HasPrefix(sql, "/*"):
 			start, end = 2, "*/"
 		case strings.HasPrefix(sql, "#"), strings.HasPrefix(sql, "--"):
-- 
2.43.0

