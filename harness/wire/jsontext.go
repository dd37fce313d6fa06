package wire

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The library renders JSON as the SQL text that would recreate the document:
//   top level: JSON_OBJECT(..), JSON_ARRAY(..), '<json text>' or
//              CAST(CAST('..' AS DATE|TIME(6)|DATETIME(6)|DECIMAL(p,s)) AS JSON)
//   nested:    JSON_OBJECT(..), JSON_ARRAY(..), 'string', number, true, false,
//              null or CAST('..' AS ..)
// MatchJSON reads that text back with MySQL's literal rules and compares the
// document it denotes with the one that was stored.

// MatchJSON returns nil when text denotes d.
func MatchJSON(text []byte, d *Doc) error {
	p := &jp{s: string(text)}
	if err := p.value(d, true, "$"); err != nil {
		return err
	}
	p.ws()
	if p.i != len(p.s) {
		return fmt.Errorf("trailing text %.60q", p.s[p.i:])
	}
	return nil
}

type jp struct {
	s string
	i int
}

func (p *jp) ws() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *jp) lit(w string) bool {
	p.ws()
	if len(p.s)-p.i >= len(w) && strings.EqualFold(p.s[p.i:p.i+len(w)], w) {
		p.i += len(w)
		return true
	}
	return false
}

func (p *jp) at(path, format string, a ...interface{}) error {
	end := p.i + 50
	if end > len(p.s) {
		end = len(p.s)
	}
	return fmt.Errorf("at %s: %s (text at %d: %q)", path, fmt.Sprintf(format, a...), p.i, p.s[p.i:end])
}

// sqlString reads a single-quoted SQL literal under MySQL's default rules.
func (p *jp) sqlString(path string) (string, error) {
	p.ws()
	if p.i >= len(p.s) || p.s[p.i] != '\'' {
		return "", p.at(path, "expected a quoted literal")
	}
	p.i++
	var b strings.Builder
	for p.i < len(p.s) {
		c := p.s[p.i]
		switch c {
		case '\'':
			if p.i+1 < len(p.s) && p.s[p.i+1] == '\'' {
				b.WriteByte('\'')
				p.i += 2
				continue
			}
			p.i++
			return b.String(), nil
		case '\\':
			if p.i+1 >= len(p.s) {
				return "", p.at(path, "dangling backslash")
			}
			e := p.s[p.i+1]
			p.i += 2
			switch e {
			case '0':
				b.WriteByte(0)
			case 'b':
				b.WriteByte(8)
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'Z':
				b.WriteByte(26)
			case '%', '_':
				b.WriteByte('\\')
				b.WriteByte(e)
			default:
				b.WriteByte(e)
			}
		default:
			b.WriteByte(c)
			p.i++
		}
	}
	return "", p.at(path, "unterminated literal")
}

var numRE = regexp.MustCompile(`^[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?`)
var intRE = regexp.MustCompile(`^-?(0|[1-9]\d*)$`)

func (p *jp) number(path string) (string, error) {
	p.ws()
	m := numRE.FindString(p.s[p.i:])
	if m == "" {
		return "", p.at(path, "expected a number")
	}
	p.i += len(m)
	return m, nil
}

func matchNumber(tok string, d *Doc, path string) error {
	switch d.Kind {
	case DInt:
		if !intRE.MatchString(tok) || tok != strconv.FormatInt(d.I, 10) {
			return fmt.Errorf("at %s: number %q, stored integer %d", path, tok, d.I)
		}
	case DUint:
		if !intRE.MatchString(tok) || tok != strconv.FormatUint(d.U, 10) {
			return fmt.Errorf("at %s: number %q, stored unsigned integer %d", path, tok, d.U)
		}
	case DDouble:
		f, err := strconv.ParseFloat(tok, 64)
		if err != nil || math.Float64bits(f) != math.Float64bits(d.F) {
			return fmt.Errorf("at %s: number %q, stored double %v", path, tok, d.F)
		}
	default:
		return fmt.Errorf("at %s: number %q, stored %s", path, tok, d.Describe())
	}
	return nil
}

// cast reads CAST('..' AS TYPE) after the word CAST( was consumed.
func (p *jp) cast(d *Doc, path string) error {
	s, err := p.sqlString(path)
	if err != nil {
		return err
	}
	if !p.lit("AS") {
		return p.at(path, "expected AS")
	}
	p.ws()
	end := strings.IndexByte(p.s[p.i:], ')')
	if end < 0 {
		return p.at(path, "unterminated CAST")
	}
	typ := p.s[p.i : p.i+end]
	if strings.Contains(typ, "(") {
		end++
		typ = p.s[p.i : p.i+end]
	}
	p.i += end
	if !p.lit(")") {
		return p.at(path, "expected ) after type %q", typ)
	}
	typ = strings.ToUpper(strings.ReplaceAll(typ, " ", ""))
	want := ""
	wantTyp := ""
	switch d.Kind {
	case DDate:
		wantTyp = "DATE"
		want = fmt.Sprintf("%04d-%02d-%02d", d.Y, d.Mo, d.D)
	case DTime:
		wantTyp = "TIME(6)"
		want = TimeText(d.Neg, d.H, d.Mi, d.Sec, d.Usec, 6)
	case DDateTime:
		wantTyp = "DATETIME(6)"
		want = DateTimeText(d.Y, d.Mo, d.D, d.H, d.Mi, d.Sec, d.Usec, 6)
	case DDecimal:
		wantTyp = fmt.Sprintf("DECIMAL(%d,%d)", d.P, d.Scale)
		want = DecimalText(d.Neg, d.IntDigits, d.FracDigits)
	default:
		return fmt.Errorf("at %s: CAST(%q AS %s), stored %s", path, s, typ, d.Describe())
	}
	if typ != wantTyp {
		return fmt.Errorf("at %s: cast to %s, stored %s", path, typ, d.Describe())
	}
	got := s
	if d.Kind == DTime || d.Kind == DDateTime {
		got, want = trimFrac(got), trimFrac(want)
	}
	if got != want {
		return fmt.Errorf("at %s: %s %q, want %q", path, typ, s, want)
	}
	return nil
}

func trimFrac(s string) string {
	if i := strings.IndexByte(s, '.'); i >= 0 {
		s = strings.TrimRight(s, "0")
		s = strings.TrimSuffix(s, ".")
	}
	return s
}

func (p *jp) value(d *Doc, top bool, path string) error {
	switch {
	case p.lit("JSON_OBJECT("):
		if d.Kind != DObject {
			return p.at(path, "object, stored %s", d.Describe())
		}
		for i := 0; ; i++ {
			if p.lit(")") {
				if i != len(d.Keys) {
					return p.at(path, "object has %d members, stored %d", i, len(d.Keys))
				}
				return nil
			}
			if i > 0 && !p.lit(",") {
				return p.at(path, "expected , or )")
			}
			if i >= len(d.Keys) {
				return p.at(path, "more than the %d stored members", len(d.Keys))
			}
			k, err := p.sqlString(path)
			if err != nil {
				return err
			}
			if k != d.Keys[i] {
				return p.at(path, "key %d is %q, stored %q", i, k, d.Keys[i])
			}
			if !p.lit(",") {
				return p.at(path, "expected , after key")
			}
			if err := p.value(d.Kids[i], false, path+"."+short(k)); err != nil {
				return err
			}
		}
	case p.lit("JSON_ARRAY("):
		if d.Kind != DArray {
			return p.at(path, "array, stored %s", d.Describe())
		}
		for i := 0; ; i++ {
			if p.lit(")") {
				if i != len(d.Kids) {
					return p.at(path, "array has %d elements, stored %d", i, len(d.Kids))
				}
				return nil
			}
			if i > 0 && !p.lit(",") {
				return p.at(path, "expected , or )")
			}
			if i >= len(d.Kids) {
				return p.at(path, "more than the %d stored elements", len(d.Kids))
			}
			if err := p.value(d.Kids[i], false, fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case p.lit("CAST("):
		if top {
			if !p.lit("CAST(") {
				return p.at(path, "expected CAST(CAST(.. AS ..) AS JSON)")
			}
			if err := p.cast(d, path); err != nil {
				return err
			}
			if !p.lit("AS") || !p.lit("JSON") || !p.lit(")") {
				return p.at(path, "expected AS JSON)")
			}
			return nil
		}
		return p.cast(d, path)
	}
	p.ws()
	if p.i >= len(p.s) {
		return p.at(path, "text ends, stored %s", d.Describe())
	}
	if p.s[p.i] == '\'' {
		s, err := p.sqlString(path)
		if err != nil {
			return err
		}
		if !top {
			if d.Kind != DString || s != d.S {
				return p.at(path, "string %.80q, stored %s", s, d.Describe())
			}
			return nil
		}
		return matchJSONText(s, d, path)
	}
	if top {
		return p.at(path, "top-level scalar is not a quoted JSON text, stored %s", d.Describe())
	}
	for _, l := range []struct {
		w string
		k DocKind
	}{{"null", DNull}, {"true", DTrue}, {"false", DFalse}} {
		if p.lit(l.w) {
			if d.Kind != l.k {
				return p.at(path, "literal %s, stored %s", l.w, d.Describe())
			}
			return nil
		}
	}
	tok, err := p.number(path)
	if err != nil {
		return err
	}
	return matchNumber(tok, d, path)
}

// matchJSONText compares a JSON text holding a scalar.
func matchJSONText(s string, d *Doc, path string) error {
	dec := json.NewDecoder(bytes.NewReader([]byte(s)))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return fmt.Errorf("at %s: %.80q is not JSON (%v), stored %s", path, s, err, d.Describe())
	}
	if rest := strings.TrimSpace(s[dec.InputOffset():]); rest != "" {
		return fmt.Errorf("at %s: text %.80q has trailing %.40q", path, s, rest)
	}
	ok := false
	switch x := v.(type) {
	case nil:
		ok = d.Kind == DNull
	case bool:
		ok = x && d.Kind == DTrue || !x && d.Kind == DFalse
	case string:
		ok = d.Kind == DString && x == d.S
	case json.Number:
		return matchNumber(string(x), d, path)
	}
	if !ok {
		return fmt.Errorf("at %s: JSON text %.80q, stored %s", path, s, d.Describe())
	}
	return nil
}

func short(s string) string {
	if len(s) > 12 {
		n := 12
		for n > 0 && !utf8.RuneStart(s[n]) {
			n--
		}
		return s[:n] + "~"
	}
	return s
}

// Describe prints a document compactly.
func (d *Doc) Describe() string {
	var b strings.Builder
	d.describe(&b)
	s := b.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func (d *Doc) describe(b *strings.Builder) {
	if b.Len() > 5000 {
		return
	}
	switch d.Kind {
	case DNull:
		b.WriteString("null")
	case DTrue:
		b.WriteString("true")
	case DFalse:
		b.WriteString("false")
	case DInt:
		fmt.Fprintf(b, "int%d(%d)", d.Width*8, d.I)
	case DUint:
		fmt.Fprintf(b, "uint%d(%d)", d.Width*8, d.U)
	case DDouble:
		fmt.Fprintf(b, "double(%v)", d.F)
	case DString:
		if len(d.S) > 100 {
			fmt.Fprintf(b, "string(len %d: %.40q..)", len(d.S), d.S)
		} else {
			fmt.Fprintf(b, "string(%q)", d.S)
		}
	case DDate:
		fmt.Fprintf(b, "date(%04d-%02d-%02d)", d.Y, d.Mo, d.D)
	case DTime:
		fmt.Fprintf(b, "time(%s)", TimeText(d.Neg, d.H, d.Mi, d.Sec, d.Usec, 6))
	case DDateTime:
		fmt.Fprintf(b, "datetime(%s)", DateTimeText(d.Y, d.Mo, d.D, d.H, d.Mi, d.Sec, d.Usec, 6))
	case DDecimal:
		fmt.Fprintf(b, "decimal(%d,%d)(%s)", d.P, d.Scale, DecimalText(d.Neg, d.IntDigits, d.FracDigits))
	case DArray:
		if d.Large {
			b.WriteString("large")
		}
		b.WriteString("[")
		for i, k := range d.Kids {
			if i > 0 {
				b.WriteString(", ")
			}
			k.describe(b)
		}
		b.WriteString("]")
	case DObject:
		if d.Large {
			b.WriteString("large")
		}
		b.WriteString("{")
		for i, k := range d.Kids {
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(b, "%q: ", d.Keys[i])
			k.describe(b)
		}
		b.WriteString("}")
	}
}

// PlainFloatRE is exponent-free decimal text.
var PlainFloatRE = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?$`)

// MatchFloat64 checks DOUBLE text.
func MatchFloat64(text []byte, bits uint64) error {
	if !PlainFloatRE.Match(text) {
		return fmt.Errorf("%.60q is not plain exponent-free decimal text", text)
	}
	f, err := strconv.ParseFloat(string(text), 64)
	if err != nil || math.Float64bits(f) != bits {
		return fmt.Errorf("%.60q parses back to %v (err %v), stored %v", text, f, err, math.Float64frombits(bits))
	}
	return nil
}

// MatchFloat32 checks FLOAT text.
func MatchFloat32(text []byte, bits uint32) error {
	if !PlainFloatRE.Match(text) {
		return fmt.Errorf("%.60q is not plain exponent-free decimal text", text)
	}
	f, err := strconv.ParseFloat(string(text), 32)
	if err != nil || math.Float32bits(float32(f)) != bits {
		return fmt.Errorf("%.60q parses back to %v (err %v), stored %v", text, f, err, math.Float32frombits(bits))
	}
	return nil
}

var errNil = errors.New("value is nil (reads as SQL NULL)")

// MatchBytes checks verbatim data.
func MatchBytes(got, want []byte) error {
	if got == nil {
		return errNil
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		return fmt.Errorf("got %s, want %s (first difference at byte %d; lengths %d, %d)", Trunc(got), Trunc(want), i, len(got), len(want))
	}
	return nil
}

// Trunc quotes data for messages.
func Trunc(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%q..(%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}
