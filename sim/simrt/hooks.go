package simrt

// DiskHooks is how the simulated disk sees the file operations of the code
// under test (package shim/os). Errors returned here are injected faults.
type DiskHooks interface {
	Open(name string, flag int) error
	Opened(name string)
	Stat(name string) error
	Seek(name string) error
	Sync(name string) error
	Rename(from, to string) error
	Truncate(name string) error
	// Read and Write say how many of n bytes at off go through and with which error.
	Read(name string, off int64, n int) (int, error)
	Write(name string, off int64, n int) (int, error)
	Close(name string) error
}

var Disk DiskHooks

// GoBackground starts a helper task (timers) that does not yield at its start.
//
//go:norace
func GoBackground(f func()) *Task {
	s := S
	if s == nil || s.Cur == nil {
		go f()
		return nil
	}
	return s.spawn(func(*Task) { f() }, false, s.Cur.Data)
}

// WakeUp ends the sleep of a helper task.
//
//go:norace
func WakeUp(t *Task) {
	if S != nil && t != nil && t.st == Sleeping {
		t.wakeAt = S.Now
	}
}

// ClientsLeft reports whether a workload task is still running.
//
//go:norace
func ClientsLeft() bool {
	s := S
	if s == nil {
		return false
	}
	for i := 0; i < len(s.Tasks); i++ {
		if t := s.Tasks[i]; t.Client && t.st != Done {
			return true
		}
	}
	return false
}
