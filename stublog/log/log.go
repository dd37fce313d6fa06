// Package log is an offline stand-in for github.com/Breeze0806/go/log, which
// this sandbox cannot fetch. It offers exactly what gobinlog's root package and
// cmd/binlogDump use.
package log

import (
	"fmt"
	"io"
	stdlog "log"
	"sync"
)

// Level is a log level.
type Level int

// Log levels.
const (
	DebugLevel Level = iota
	InfoLevel
	ErrorLevel
)

// Logger is the logging interface the library writes to.
type Logger interface {
	Debugf(format string, args ...interface{})
	Infof(format string, args ...interface{})
	Errorf(format string, args ...interface{})
	Print(args ...interface{})
}

type defaultLogger struct {
	level Level
	l     *stdlog.Logger
}

// NewDefaultLogger builds a Logger on a writer.
func NewDefaultLogger(w io.Writer, level Level, prefix string) Logger {
	return &defaultLogger{level: level, l: stdlog.New(w, prefix, stdlog.LstdFlags)}
}

func (d *defaultLogger) Debugf(format string, args ...interface{}) {
	if d.level <= DebugLevel {
		d.l.Output(2, "[DEBUG]"+fmt.Sprintf(format, args...))
	}
}

func (d *defaultLogger) Infof(format string, args ...interface{}) {
	if d.level <= InfoLevel {
		d.l.Output(2, "[INFO]"+fmt.Sprintf(format, args...))
	}
}

func (d *defaultLogger) Errorf(format string, args ...interface{}) {
	if d.level <= ErrorLevel {
		d.l.Output(2, "[ERROR]"+fmt.Sprintf(format, args...))
	}
}

func (d *defaultLogger) Print(args ...interface{}) {
	d.l.Output(2, fmt.Sprint(args...))
}

var (
	mu     sync.Mutex
	logger Logger
)

// SetLogger sets the process-wide logger.
func SetLogger(l Logger) {
	mu.Lock()
	defer mu.Unlock()
	logger = l
}

// GetLogger returns the process-wide logger.
func GetLogger() Logger {
	mu.Lock()
	defer mu.Unlock()
	return logger
}
