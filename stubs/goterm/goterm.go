// Package goterm stands in for github.com/buger/goterm: it keeps the screen in
// memory and hands it to Shown at every Flush.
package goterm

import (
	"bytes"
	"fmt"
	"io"
)

const (
	BLACK = iota
	RED
	GREEN
	YELLOW
	BLUE
	MAGENTA
	CYAN
	WHITE
)

var (
	Screen            = new(bytes.Buffer)
	W, H              = 80, 25
	Shown             = func(string) {}
	Output  io.Writer = io.Discard
	cleared           = ""
)

// Reset forgets the screen; tests call it between runs.
func Reset(height int) { Screen = new(bytes.Buffer); H = height; Shown = func(string) {}; cleared = "" }

func Clear()              { Screen.Reset(); cleared = "" }
func MoveCursor(x, y int) {}
func Width() int          { return W }
func Height() int         { return H }
func CurrentHeight() int  { return bytes.Count(Screen.Bytes(), []byte("\n")) }

// Flush shows what was printed since the last Clear.
func Flush() {
	cleared += Screen.String()
	Screen.Reset()
	Shown(cleared)
}

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(Screen, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(Screen, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(Screen, f, a...) }

func Bold(s string) string                         { return "\033[1m" + s + "\033[0m" }
func Color(s string, c int) string                 { return fmt.Sprintf("\033[3%dm%s\033[0m", c, s) }
func Background(s string, c int) string            { return s }
func Highlight(s, sub string, c int) string        { return s }
func HighlightRegion(s string, f, t, c int) string { return s }
func ResetLine(s string) string                    { return s }
func MoveTo(s string, x, y int) string             { return s }

// Table keeps the cells as they were written, separated by tabs.
type Table struct{ bytes.Buffer }

func NewTable(minwidth, tabwidth, padding int, padchar byte, flags uint) *Table { return &Table{} }
func (t *Table) String() string                                                 { return t.Buffer.String() }
func (t *Table) Flush() error                                                   { return nil }
