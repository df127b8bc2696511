// Package site holds the places records are logged from.
package site

import (
	"fmt"
	"runtime"

	"github.com/wujiu2020/strip"
)

// At holds the calling place, its caller and the caller of that.
type At [3]string

func (at *At) here() {
	for i := range at {
		_, file, line, _ := runtime.Caller(2 + i)
		at[i] = fmt.Sprintf("%s:%d", file, line)
	}
}

func (at *At) f(format string) string               { at.here(); return format }
func (at *At) v(values []interface{}) []interface{} { at.here(); return values }

// Outer logs one record, one call away.
func Outer(at *At, l strip.Logger, sev int, form bool, format string, v []interface{}) {
	if form {
		Formatted(at, l, sev, format, v)
	} else {
		Listed(at, l, sev, v)
	}
}

func Formatted(at *At, l strip.Logger, sev int, format string, v []interface{}) {
	switch sev {
	case 1:
		l.Emergencyf(at.f(format), v...)
	case 2:
		l.Alertf(at.f(format), v...)
	case 3:
		l.Critcialf(at.f(format), v...)
	case 4:
		l.Errorf(at.f(format), v...)
	case 5:
		l.Warnf(at.f(format), v...)
	case 6:
		l.Noticef(at.f(format), v...)
	case 7:
		l.Infof(at.f(format), v...)
	case 8:
		l.Debugf(at.f(format), v...)
	}
}

func Listed(at *At, l strip.Logger, sev int, v []interface{}) {
	switch sev {
	case 1:
		l.Emergency(at.v(v)...)
	case 2:
		l.Alert(at.v(v)...)
	case 3:
		l.Critcial(at.v(v)...)
	case 4:
		l.Error(at.v(v)...)
	case 5:
		l.Warn(at.v(v)...)
	case 6:
		l.Notice(at.v(v)...)
	case 7:
		l.Info(at.v(v)...)
	case 8:
		l.Debug(at.v(v)...)
	}
}
