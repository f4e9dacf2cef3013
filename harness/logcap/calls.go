package logcap

// Code generated by tools/gen_logcap.py. DO NOT EDIT.

import (
	"context"
	"fmt"
	"time"

	log "github.com/sirupsen/logrus"
)

//verif:model github.com/sirupsen/logrus.Trace
func VerifPkgTrace(args ...interface{}) {
	e := entry()
	line(e, log.TraceLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Tracef
func VerifPkgTracef(format string, args ...interface{}) {
	e := entry()
	line(e, log.TraceLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Traceln
func VerifPkgTraceln(args ...interface{}) {
	e := entry()
	line(e, log.TraceLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Debug
func VerifPkgDebug(args ...interface{}) {
	e := entry()
	line(e, log.DebugLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Debugf
func VerifPkgDebugf(format string, args ...interface{}) {
	e := entry()
	line(e, log.DebugLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Debugln
func VerifPkgDebugln(args ...interface{}) {
	e := entry()
	line(e, log.DebugLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Print
func VerifPkgPrint(args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Printf
func VerifPkgPrintf(format string, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Println
func VerifPkgPrintln(args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Info
func VerifPkgInfo(args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Infof
func VerifPkgInfof(format string, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Infoln
func VerifPkgInfoln(args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Warn
func VerifPkgWarn(args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Warnf
func VerifPkgWarnf(format string, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Warnln
func VerifPkgWarnln(args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Warning
func VerifPkgWarning(args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Warningf
func VerifPkgWarningf(format string, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Warningln
func VerifPkgWarningln(args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Error
func VerifPkgError(args ...interface{}) {
	e := entry()
	line(e, log.ErrorLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Errorf
func VerifPkgErrorf(format string, args ...interface{}) {
	e := entry()
	line(e, log.ErrorLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Errorln
func VerifPkgErrorln(args ...interface{}) {
	e := entry()
	line(e, log.ErrorLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Panic
func VerifPkgPanic(args ...interface{}) {
	e := entry()
	line(e, log.PanicLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Panicf
func VerifPkgPanicf(format string, args ...interface{}) {
	e := entry()
	line(e, log.PanicLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Panicln
func VerifPkgPanicln(args ...interface{}) {
	e := entry()
	line(e, log.PanicLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.Fatal
func VerifPkgFatal(args ...interface{}) {
	e := entry()
	line(e, log.FatalLevel, fmt.Sprint(args...))
}

//verif:model github.com/sirupsen/logrus.Fatalf
func VerifPkgFatalf(format string, args ...interface{}) {
	e := entry()
	line(e, log.FatalLevel, fmt.Sprintf(format, args...))
}

//verif:model github.com/sirupsen/logrus.Fatalln
func VerifPkgFatalln(args ...interface{}) {
	e := entry()
	line(e, log.FatalLevel, sprintln(args...))
}

//verif:model github.com/sirupsen/logrus.WithField
func VerifPkgWithField(key string, value interface{}) *log.Entry {
	e := entry()
	return with(e, log.Fields{key: value})
}

//verif:model github.com/sirupsen/logrus.WithFields
func VerifPkgWithFields(fields log.Fields) *log.Entry {
	e := entry()
	return with(e, fields)
}

//verif:model github.com/sirupsen/logrus.WithError
func VerifPkgWithError(err error) *log.Entry {
	e := entry()
	return with(e, log.Fields{"error": err})
}

//verif:model github.com/sirupsen/logrus.WithTime
func VerifPkgWithTime(t time.Time) *log.Entry {
	e := entry()
	return with(e, nil)
}

//verif:model github.com/sirupsen/logrus.WithContext
func VerifPkgWithContext(ctx context.Context) *log.Entry {
	e := entry()
	return with(e, nil)
}

//verif:model github.com/sirupsen/logrus.SetLevel
func VerifPkgSetLevel(level log.Level) { cur = level }

//verif:model github.com/sirupsen/logrus.GetLevel
func VerifPkgGetLevel() log.Level { return cur }

//verif:model github.com/sirupsen/logrus.IsLevelEnabled
func VerifPkgIsLevelEnabled(level log.Level) bool { return cur >= level }

//verif:model (*github.com/sirupsen/logrus.Entry).Trace
func VerifEntryTrace(e *log.Entry, args ...interface{}) {
	line(e, log.TraceLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Tracef
func VerifEntryTracef(e *log.Entry, format string, args ...interface{}) {
	line(e, log.TraceLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Traceln
func VerifEntryTraceln(e *log.Entry, args ...interface{}) {
	line(e, log.TraceLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Debug
func VerifEntryDebug(e *log.Entry, args ...interface{}) {
	line(e, log.DebugLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Debugf
func VerifEntryDebugf(e *log.Entry, format string, args ...interface{}) {
	line(e, log.DebugLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Debugln
func VerifEntryDebugln(e *log.Entry, args ...interface{}) {
	line(e, log.DebugLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Print
func VerifEntryPrint(e *log.Entry, args ...interface{}) {
	line(e, log.InfoLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Printf
func VerifEntryPrintf(e *log.Entry, format string, args ...interface{}) {
	line(e, log.InfoLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Println
func VerifEntryPrintln(e *log.Entry, args ...interface{}) {
	line(e, log.InfoLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Info
func VerifEntryInfo(e *log.Entry, args ...interface{}) {
	line(e, log.InfoLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Infof
func VerifEntryInfof(e *log.Entry, format string, args ...interface{}) {
	line(e, log.InfoLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Infoln
func VerifEntryInfoln(e *log.Entry, args ...interface{}) {
	line(e, log.InfoLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Warn
func VerifEntryWarn(e *log.Entry, args ...interface{}) {
	line(e, log.WarnLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Warnf
func VerifEntryWarnf(e *log.Entry, format string, args ...interface{}) {
	line(e, log.WarnLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Warnln
func VerifEntryWarnln(e *log.Entry, args ...interface{}) {
	line(e, log.WarnLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Warning
func VerifEntryWarning(e *log.Entry, args ...interface{}) {
	line(e, log.WarnLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Warningf
func VerifEntryWarningf(e *log.Entry, format string, args ...interface{}) {
	line(e, log.WarnLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Warningln
func VerifEntryWarningln(e *log.Entry, args ...interface{}) {
	line(e, log.WarnLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Error
func VerifEntryError(e *log.Entry, args ...interface{}) {
	line(e, log.ErrorLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Errorf
func VerifEntryErrorf(e *log.Entry, format string, args ...interface{}) {
	line(e, log.ErrorLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Errorln
func VerifEntryErrorln(e *log.Entry, args ...interface{}) {
	line(e, log.ErrorLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Panic
func VerifEntryPanic(e *log.Entry, args ...interface{}) {
	line(e, log.PanicLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Panicf
func VerifEntryPanicf(e *log.Entry, format string, args ...interface{}) {
	line(e, log.PanicLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Panicln
func VerifEntryPanicln(e *log.Entry, args ...interface{}) {
	line(e, log.PanicLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Fatal
func VerifEntryFatal(e *log.Entry, args ...interface{}) {
	line(e, log.FatalLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Fatalf
func VerifEntryFatalf(e *log.Entry, format string, args ...interface{}) {
	line(e, log.FatalLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Fatalln
func VerifEntryFatalln(e *log.Entry, args ...interface{}) {
	line(e, log.FatalLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Log
func VerifEntryLog(e *log.Entry, level log.Level, args ...interface{}) {
	line(e, level, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Logf
func VerifEntryLogf(e *log.Entry, level log.Level, format string, args ...interface{}) {
	line(e, level, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).Logln
func VerifEntryLogln(e *log.Entry, level log.Level, args ...interface{}) {
	line(e, level, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Entry).WithField
func VerifEntryWithField(e *log.Entry, key string, value interface{}) *log.Entry {
	return with(e, log.Fields{key: value})
}

//verif:model (*github.com/sirupsen/logrus.Entry).WithFields
func VerifEntryWithFields(e *log.Entry, fields log.Fields) *log.Entry {
	return with(e, fields)
}

//verif:model (*github.com/sirupsen/logrus.Entry).WithError
func VerifEntryWithError(e *log.Entry, err error) *log.Entry {
	return with(e, log.Fields{"error": err})
}

//verif:model (*github.com/sirupsen/logrus.Entry).WithTime
func VerifEntryWithTime(e *log.Entry, t time.Time) *log.Entry {
	return with(e, nil)
}

//verif:model (*github.com/sirupsen/logrus.Entry).WithContext
func VerifEntryWithContext(e *log.Entry, ctx context.Context) *log.Entry {
	return with(e, nil)
}

//verif:model (*github.com/sirupsen/logrus.Logger).Trace
func VerifLoggerTrace(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.TraceLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Tracef
func VerifLoggerTracef(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.TraceLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Traceln
func VerifLoggerTraceln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.TraceLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Debug
func VerifLoggerDebug(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.DebugLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Debugf
func VerifLoggerDebugf(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.DebugLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Debugln
func VerifLoggerDebugln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.DebugLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Print
func VerifLoggerPrint(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Printf
func VerifLoggerPrintf(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Println
func VerifLoggerPrintln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Info
func VerifLoggerInfo(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Infof
func VerifLoggerInfof(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Infoln
func VerifLoggerInfoln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.InfoLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Warn
func VerifLoggerWarn(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Warnf
func VerifLoggerWarnf(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Warnln
func VerifLoggerWarnln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Warning
func VerifLoggerWarning(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Warningf
func VerifLoggerWarningf(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Warningln
func VerifLoggerWarningln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.WarnLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Error
func VerifLoggerError(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.ErrorLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Errorf
func VerifLoggerErrorf(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.ErrorLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Errorln
func VerifLoggerErrorln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.ErrorLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Panic
func VerifLoggerPanic(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.PanicLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Panicf
func VerifLoggerPanicf(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.PanicLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Panicln
func VerifLoggerPanicln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.PanicLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Fatal
func VerifLoggerFatal(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.FatalLevel, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Fatalf
func VerifLoggerFatalf(l *log.Logger, format string, args ...interface{}) {
	e := entry()
	line(e, log.FatalLevel, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Fatalln
func VerifLoggerFatalln(l *log.Logger, args ...interface{}) {
	e := entry()
	line(e, log.FatalLevel, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Log
func VerifLoggerLog(l *log.Logger, level log.Level, args ...interface{}) {
	e := entry()
	line(e, level, fmt.Sprint(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Logf
func VerifLoggerLogf(l *log.Logger, level log.Level, format string, args ...interface{}) {
	e := entry()
	line(e, level, fmt.Sprintf(format, args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).Logln
func VerifLoggerLogln(l *log.Logger, level log.Level, args ...interface{}) {
	e := entry()
	line(e, level, sprintln(args...))
}

//verif:model (*github.com/sirupsen/logrus.Logger).WithField
func VerifLoggerWithField(l *log.Logger, key string, value interface{}) *log.Entry {
	e := entry()
	return with(e, log.Fields{key: value})
}

//verif:model (*github.com/sirupsen/logrus.Logger).WithFields
func VerifLoggerWithFields(l *log.Logger, fields log.Fields) *log.Entry {
	e := entry()
	return with(e, fields)
}

//verif:model (*github.com/sirupsen/logrus.Logger).WithError
func VerifLoggerWithError(l *log.Logger, err error) *log.Entry {
	e := entry()
	return with(e, log.Fields{"error": err})
}

//verif:model (*github.com/sirupsen/logrus.Logger).WithTime
func VerifLoggerWithTime(l *log.Logger, t time.Time) *log.Entry {
	e := entry()
	return with(e, nil)
}

//verif:model (*github.com/sirupsen/logrus.Logger).WithContext
func VerifLoggerWithContext(l *log.Logger, ctx context.Context) *log.Entry {
	e := entry()
	return with(e, nil)
}

//verif:model (*github.com/sirupsen/logrus.Logger).SetLevel
func VerifLoggerSetLevel(l *log.Logger, level log.Level) { cur = level }

//verif:model (*github.com/sirupsen/logrus.Logger).GetLevel
func VerifLoggerGetLevel(l *log.Logger) log.Level { return cur }

//verif:model (*github.com/sirupsen/logrus.Logger).IsLevelEnabled
func VerifLoggerIsLevelEnabled(l *log.Logger, level log.Level) bool { return cur >= level }

//verif:model github.com/sirupsen/logrus.NewEntry
func VerifNewEntry(l *log.Logger) *log.Entry { return entry() }

//verif:model github.com/sirupsen/logrus.StandardLogger
func VerifStandardLogger() *log.Logger { return &std }

//verif:model github.com/sirupsen/logrus.New
func VerifNew() *log.Logger { return new(log.Logger) }
