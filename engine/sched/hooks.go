//go:build go1.21

package sched

import (
	"fmt"
	"os"
)

// Formatting without the happens-before edges of fmt's internal pool, which
// would hide races. In race builds one goroutine does all the formatting: what
// it does comes after what its callers did, never before.

func Sprintf(format string, a ...interface{}) string {
	return format1(func() interface{} { return fmt.Sprintf(format, a...) }).(string)
}

func Sprint(a ...interface{}) string {
	return format1(func() interface{} { return fmt.Sprint(a...) }).(string)
}

func Sprintln(a ...interface{}) string {
	return format1(func() interface{} { return fmt.Sprintln(a...) }).(string)
}

func Errorf(format string, a ...interface{}) error {
	return format1(func() interface{} { return fmt.Errorf(format, a...) }).(error)
}

var (
	fmtIn  chan func() interface{}
	fmtOut chan interface{}
	fmtRV  byte
)

func format1(f func() interface{}) interface{} {
	if !RaceBuild || Native {
		return f()
	}
	raceReleaseMerge(&fmtRV)
	raceDisable()
	defer raceEnable()
	if fmtIn == nil {
		fmtIn = make(chan func() interface{})
		fmtOut = make(chan interface{})
		go func() {
			raceDisable()
			for {
				f := <-fmtIn
				raceEnable()
				raceAcquire(&fmtRV)
				r := f()
				raceDisable()
				fmtOut <- r
			}
		}()
	}
	fmtIn <- f
	return <-fmtOut
}

// File faults: when FileFaults is set, opening a file for reading is a KFault
// choice: 0 works, 1 the open fails, 2 every read fails.
var (
	FileFaults   bool
	FaultsFired  int
	FileOpens    int
)

// OsOpen replaces os.Open.
func OsOpen(name string) (*os.File, error) {
	FileOpens++
	if FileFaults {
		switch Choose(KFault, 3) {
		case 1:
			FaultsFired++
			return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrPermission}
		case 2:
			FaultsFired++
			return os.OpenFile(name, os.O_WRONLY, 0) // reads fail
		}
	}
	return os.Open(name)
}

// OsCreate replaces os.Create: 0 works, 1 fails, 2 every write fails.
func OsCreate(name string) (*os.File, error) {
	FileOpens++
	if FileFaults {
		switch Choose(KFault, 3) {
		case 1:
			FaultsFired++
			return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrPermission}
		case 2:
			FaultsFired++
			f, err := os.Create(name)
			if err != nil {
				return nil, err
			}
			f.Close()
			return os.Open(name) // writes fail
		}
	}
	return os.Create(name)
}
