package main

import (
	"fmt"
	"io/ioutil"

	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
)

// loud is a logger that formats everything and keeps nothing: what is logged
// must not matter to anything else.
type loud struct{}

func (loud) Error(e errors.Error) {
	if e != nil {
		fmt.Fprintln(ioutil.Discard, e.Message, e.Stack)
	}
}
func (loud) Warn(format string, a ...interface{})  { fmt.Fprintf(ioutil.Discard, format, a...) }
func (loud) Info(format string, a ...interface{})  { fmt.Fprintf(ioutil.Discard, format, a...) }
func (loud) Debug(format string, a ...interface{}) { fmt.Fprintf(ioutil.Discard, format, a...) }
func (loud) Debugln(a ...interface{})              { fmt.Fprintln(ioutil.Discard, a...) }
func (loud) SetLogLevel(level logger.LogLevel)     {}
func (loud) GetLogLevel() logger.LogLevel          { return logger.DebugLevel }

type logs interface{ SetLogger(logger.Logger) }

// withLogger gives every second object a logger; that of nothing is none.
func withLogger(x logs) { withThis(x, loud{}) }

func withThis(x logs, l logger.Logger) {
	switch rng.Intn(4) {
	case 0:
		x.SetLogger(nil)
	case 1:
		x.SetLogger(l)
	case 2:
		x.SetLogger(l)
		x.SetLogger(nil)
	}
}
