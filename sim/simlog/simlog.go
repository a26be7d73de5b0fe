// Package simlog stands in for package log: fatal messages end the simulated process.
package simlog

import (
	"fmt"
	"io"
	"log"
	"time"

	"github.com/alxarch/njson/verifsim/simos"
	"github.com/alxarch/njson/verifsim/simrt"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Logger is log.Logger.
type Logger struct {
	w      io.Writer
	prefix string
	flags  int
}

var std = New(simos.Stderr, "", LstdFlags)

func New(w io.Writer, prefix string, flags int) *Logger { return &Logger{w, prefix, flags} }
func Default() *Logger                                  { return std }

func (l *Logger) Output(_ int, s string) error {
	if l.w == nil {
		return nil
	}
	h := l.prefix
	if l.flags&(Ldate|Ltime) != 0 {
		h += simrt.TimeNow().Format(time.DateTime) + " "
	}
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	_, err := io.WriteString(l.w, h+s)
	return err
}
func (l *Logger) Print(v ...interface{})            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Println(v ...interface{})          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Print(v...); simos.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Println(v...); simos.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Printf(f, v...); simos.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := fmt.Sprint(v...); l.Print(s); panic(s) }
func (l *Logger) Panicln(v ...interface{})          { s := fmt.Sprintln(v...); l.Print(s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) { s := fmt.Sprintf(f, v...); l.Print(s); panic(s) }
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) Prefix() string                    { return l.prefix }
func (l *Logger) SetFlags(f int)                    { l.flags = f }
func (l *Logger) Flags() int                        { return l.flags }
func (l *Logger) SetOutput(w io.Writer)             { l.w = w }
func (l *Logger) Writer() io.Writer                 { return l.w }

func Print(v ...interface{})            { std.Print(v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicln(v ...interface{})          { std.Panicln(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
func SetPrefix(p string)                { std.SetPrefix(p) }
func Prefix() string                    { return std.Prefix() }
func SetFlags(f int)                    { std.SetFlags(f) }
func Flags() int                        { return std.Flags() }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func Writer() io.Writer                 { return std.Writer() }
func Output(d int, s string) error      { return std.Output(d, s) }
