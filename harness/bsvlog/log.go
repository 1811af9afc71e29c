// Package bsvlog stands in for the logger that bsvd's packages import and that
// is not at hand here. Nothing is logged.
package bsvlog

// Logger has the methods bsvd's packages call.
type Logger interface {
	Tracef(format string, a ...interface{})
	Debugf(format string, a ...interface{})
	Infof(format string, a ...interface{})
	Warnf(format string, a ...interface{})
	Errorf(format string, a ...interface{})
	Criticalf(format string, a ...interface{})
	Trace(a ...interface{})
	Debug(a ...interface{})
	Info(a ...interface{})
	Warn(a ...interface{})
	Error(a ...interface{})
	Critical(a ...interface{})
	Level() Level
	SetLevel(Level)
}

// Level is a level of importance.
type Level uint32

const (
	LevelTrace Level = iota
	LevelDebug
	LevelInfo
	LevelWarn
	LevelError
	LevelCritical
	LevelOff
)

type none struct{}

func (none) Tracef(string, ...interface{})    {}
func (none) Debugf(string, ...interface{})    {}
func (none) Infof(string, ...interface{})     {}
func (none) Warnf(string, ...interface{})     {}
func (none) Errorf(string, ...interface{})    {}
func (none) Criticalf(string, ...interface{}) {}
func (none) Trace(...interface{})             {}
func (none) Debug(...interface{})             {}
func (none) Info(...interface{})              {}
func (none) Warn(...interface{})              {}
func (none) Error(...interface{})             {}
func (none) Critical(...interface{})          {}
func (none) Level() Level                     { return LevelOff }
func (none) SetLevel(Level)                   {}

// Disabled logs nothing.
var Disabled Logger = none{}
