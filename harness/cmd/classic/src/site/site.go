// Package site is where the handlers log from.
package site

import "github.com/wujiu2020/strip"

func Log(l strip.Logger, sev int, msg string) {
	switch sev {
	case 3:
		l.Critcial(msg)
	case 4:
		l.Errorf("%s", msg)
	case 5:
		l.Warn(msg)
	case 7:
		l.Info(msg)
	case 8:
		l.Debugf("%s", msg)
	}
}
