//go:build sysio

package simio

import (
	"fmt"
	"path"
	"sync"
	"syscall"

	"xbnfsim/simrt"
)

// State is what a plan has done so far.
type State struct {
	mu     sync.Mutex // the code may read files concurrently
	plan   Plan
	fds    map[int]int
	counts map[string]int
	Opens  int
	Closes int
	Fired  map[string]int // by "call kind"
	Hit    map[int]int    // by path index
	Notify func(string)
}

var errs = map[string]syscall.Errno{
	"eintr": syscall.EINTR, "eio": syscall.EIO, "enoent": syscall.ENOENT,
	"emfile": syscall.EMFILE, "eacces": syscall.EACCES,
}

// abs is the cleaned absolute form of a name.
func (s *State) abs(name string) string {
	if len(name) > 0 && name[0] != '/' && s.plan.Dir != "" {
		name = s.plan.Dir + "/" + name
	}
	return path.Clean(name)
}

// fdPath is the path index of a handle.
func (s *State) fdPath(fd int) (int, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	i, ok := s.fds[fd]
	return i, ok
}

func (s *State) find(call string, path int) *Fault {
	simrt.Soon()
	s.mu.Lock()
	defer s.mu.Unlock()
	k := fmt.Sprint(call, path)
	n := s.counts[k]
	s.counts[k]++
	for i := range s.plan.Faults {
		f := &s.plan.Faults[i]
		if f.Call == call && f.Path == path && (f.Nth == n || (f.Nth < 0 && f.Kind == "short")) {
			return f
		}
	}
	return nil
}

func (s *State) fire(f *Fault) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Fired[f.Call+" "+f.Kind]++
	s.Hit[f.Path]++
	if s.Notify != nil {
		s.Notify(fmt.Sprintf("%s %s %d\n", f.Call, f.Kind, f.Path))
	}
}

// Open is the number of handles still open on the planned files.
func (s *State) Open() int { return len(s.fds) }

// Install puts the plan in force.
func Install(p Plan) *State {
	s := &State{plan: p, fds: map[int]int{}, counts: map[string]int{}, Fired: map[string]int{}, Hit: map[int]int{}}
	s.fds[-1] = 0
	delete(s.fds, -1)
	syscall.SimOpen = func(name string, mode int, perm uint32, real func(string, int, uint32) (int, error)) (int, error) {
		full := s.abs(name)
		for i, q := range p.Paths {
			if full == s.abs(q) {
				if f := s.find("open", i); f != nil {
					s.fire(f)
					return -1, errs[f.Kind]
				}
				fd, err := real(name, mode, perm)
				if err == nil {
					s.mu.Lock()
					s.fds[fd] = i
					s.Opens++
					s.mu.Unlock()
				}
				return fd, err
			}
		}
		return real(name, mode, perm)
	}
	syscall.SimClose = func(fd int) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if _, ok := s.fds[fd]; ok {
			delete(s.fds, fd)
			s.Closes++
		}
	}
	syscall.SimFstat = func(fd int, st *syscall.Stat_t, real func(int, *syscall.Stat_t) error) error {
		i, ok := s.fdPath(fd)
		if !ok {
			return real(fd, st)
		}
		f := s.find("fstat", i)
		if f != nil && f.Kind != "lie" {
			s.fire(f)
			return errs[f.Kind]
		}
		err := real(fd, st)
		if f != nil && err == nil {
			s.fire(f)
			st.Size = int64(f.N)
		}
		return err
	}
	syscall.SimStat = func(name string, st *syscall.Stat_t, real func(string, *syscall.Stat_t) error) error {
		full := s.abs(name)
		for i, q := range p.Paths {
			if full != s.abs(q) {
				continue
			}
			f := s.find("fstat", i)
			if f != nil && f.Kind != "lie" {
				s.fire(f)
				return errs[f.Kind]
			}
			err := real(name, st)
			if f != nil && err == nil {
				s.fire(f)
				st.Size = int64(f.N)
			}
			return err
		}
		return real(name, st)
	}
	syscall.SimRead = func(fd int, b []byte) (int, error, bool) {
		i, ok := s.fdPath(fd)
		if !ok {
			return 0, nil, false
		}
		f := s.find("read", i)
		if f == nil {
			return 0, nil, false
		}
		if f.Kind == "short" {
			if len(b) > f.N && f.N > 0 {
				s.fire(f)
				n, err := syscall.SimRawRead(fd, b[:f.N])
				return n, err, true
			}
			return 0, nil, false
		}
		s.fire(f)
		return -1, errs[f.Kind], true
	}
	syscall.SimPread = func(fd int, b []byte, off int64) (int, error, bool) {
		i, ok := s.fdPath(fd)
		if !ok {
			return 0, nil, false
		}
		f := s.find("read", i)
		if f == nil {
			return 0, nil, false
		}
		if f.Kind == "short" {
			if len(b) > f.N && f.N > 0 {
				s.fire(f)
				n, err := syscall.SimRawPread(fd, b[:f.N], off)
				return n, err, true
			}
			return 0, nil, false
		}
		s.fire(f)
		return -1, errs[f.Kind], true
	}
	syscall.SimWrite = func(fd int, b []byte) (int, error, bool) {
		if fd != 1 {
			return 0, nil, false
		}
		f := s.find("write", -1)
		if f == nil {
			return 0, nil, false
		}
		if f.Kind == "short" {
			if len(b) > f.N && f.N > 0 {
				s.fire(f)
				n, err := syscall.SimRawWrite(fd, b[:f.N])
				return n, err, true
			}
			return 0, nil, false
		}
		s.fire(f)
		return -1, errs[f.Kind], true
	}
	return s
}

// Remove takes the plan out of force.
func Remove() {
	syscall.SimOpen, syscall.SimClose, syscall.SimFstat, syscall.SimStat = nil, nil, nil, nil
	syscall.SimRead, syscall.SimPread, syscall.SimWrite = nil, nil, nil
}
