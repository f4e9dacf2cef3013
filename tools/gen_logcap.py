"""writes harness/logcap/calls.go: models of the logging library's functions"""
L='github.com/sirupsen/logrus'
o='''package logcap

// Code generated by tools/gen_logcap.py. DO NOT EDIT.

import (
	"context"
	"fmt"
	"time"

	log "github.com/sirupsen/logrus"
)

'''
lv=[('Trace','Trace'),('Debug','Debug'),('Print','Info'),('Info','Info'),('Warn','Warn'),('Warning','Warn'),('Error','Error'),('Panic','Panic'),('Fatal','Fatal')]
def recv(r):
    if r=='': return L+'.','','e := entry()\n\t','Pkg'
    if r=='Entry': return '(*%s.Entry).'%L,'e *log.Entry, ','','Entry'
    return '(*%s.Logger).'%L,'l *log.Logger, ','e := entry()\n\t','Logger'
for r in ['','Entry','Logger']:
    pre,par,mk,nm=recv(r)
    for n,l in lv:
        for suf,sig,msg in [('','args ...interface{}','fmt.Sprint(args...)'),('f','format string, args ...interface{}','fmt.Sprintf(format, args...)'),('ln','args ...interface{}','sprintln(args...)')]:
            o+='//verif:model %s%s%s\nfunc Verif%s%s%s(%s%s) {\n\t%sline(e, log.%sLevel, %s)\n}\n\n'%(pre,n,suf,nm,n,suf,par,sig,mk,l,msg)
    if r!='':
        for suf,sig,msg in [('','args ...interface{}','fmt.Sprint(args...)'),('f','format string, args ...interface{}','fmt.Sprintf(format, args...)'),('ln','args ...interface{}','sprintln(args...)')]:
            o+='//verif:model %sLog%s\nfunc Verif%sLog%s(%slevel log.Level, %s) {\n\t%sline(e, level, %s)\n}\n\n'%(pre,suf,nm,suf,par,sig,mk,msg)
    for n,sig,call in [('WithField','key string, value interface{}','with(e, log.Fields{key: value})'),('WithFields','fields log.Fields','with(e, fields)'),('WithError','err error','with(e, log.Fields{"error": err})'),('WithTime','t time.Time','with(e, nil)'),('WithContext','ctx context.Context','with(e, nil)')]:
        o+='//verif:model %s%s\nfunc Verif%s%s(%s%s) *log.Entry {\n\t%sreturn %s\n}\n\n'%(pre,n,nm,n,par,sig,mk,call)
    if r!='Entry':
        p=par.rstrip(', ')
        o+='//verif:model %sSetLevel\nfunc Verif%sSetLevel(%slevel log.Level) { cur = level }\n\n'%(pre,nm,par)
        o+='//verif:model %sGetLevel\nfunc Verif%sGetLevel(%s) log.Level { return cur }\n\n'%(pre,nm,p)
        o+='//verif:model %sIsLevelEnabled\nfunc Verif%sIsLevelEnabled(%slevel log.Level) bool { return cur >= level }\n\n'%(pre,nm,par)
o+='''//verif:model %s.NewEntry
func VerifNewEntry(l *log.Logger) *log.Entry { return entry() }

//verif:model %s.StandardLogger
func VerifStandardLogger() *log.Logger { return &std }

//verif:model %s.New
func VerifNew() *log.Logger { return new(log.Logger) }
'''%(L,L,L)
open('/verif/harness/logcap/calls.go','w').write(o)
