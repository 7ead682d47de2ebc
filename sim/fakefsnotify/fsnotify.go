// Package fsnotify is the simulated counterpart of fsnotify v1.4.9: the same
// API and the same event translation over a simulated inotify (the kernel side
// is driven by the simulator's file operations, see Emit).
package fsnotify

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"syscall"
)

type Event struct {
	Name string
	Op   Op
}

type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

func (op Op) String() string {
	var buffer bytes.Buffer
	if op&Create == Create {
		buffer.WriteString("|CREATE")
	}
	if op&Remove == Remove {
		buffer.WriteString("|REMOVE")
	}
	if op&Write == Write {
		buffer.WriteString("|WRITE")
	}
	if op&Rename == Rename {
		buffer.WriteString("|RENAME")
	}
	if op&Chmod == Chmod {
		buffer.WriteString("|CHMOD")
	}
	if buffer.Len() == 0 {
		return ""
	}
	return buffer.String()[1:]
}

func (e Event) String() string { return fmt.Sprintf("%q: %s", e.Name, e.Op.String()) }

var ErrEventOverflow = errors.New("fsnotify queue overflow")

// inotify masks
const (
	IN_MODIFY      = 0x2
	IN_ATTRIB      = 0x4
	IN_MOVED_FROM  = 0x40
	IN_MOVED_TO    = 0x80
	IN_CREATE      = 0x100
	IN_DELETE      = 0x200
	IN_DELETE_SELF = 0x400
	IN_MOVE_SELF   = 0x800
	IN_Q_OVERFLOW  = 0x4000
	IN_IGNORED     = 0x8000
	agnostic       = IN_MOVED_TO | IN_MOVED_FROM | IN_CREATE | IN_ATTRIB | IN_MODIFY | IN_MOVE_SELF | IN_DELETE | IN_DELETE_SELF
)

// Simulator hooks and state.
var (
	SimNewErr func() error            // failure of inotify_init
	SimAddErr func(name string) error // failure of inotify_add_watch
	simMu     sync.Mutex
	simAll    []*Watcher
	SimAdds   int
	SimLimit  = 16384
)

type raw struct {
	wd   int
	mask uint32
	name string
}

type watch struct{ wd int }

type Watcher struct {
	Events chan Event
	Errors chan error
	mu     sync.Mutex
	// user side
	watches map[string]*watch
	paths   map[int]string
	done    chan struct{}
	doneRes chan struct{}
	// kernel side (simMu)
	cond   *sync.Cond
	queue  []raw
	inodes map[uint64]int
	byWd   map[int]uint64
	nextWd int
	closed bool
}

func NewWatcher() (*Watcher, error) {
	if SimNewErr != nil {
		if err := SimNewErr(); err != nil {
			return nil, err
		}
	}
	w := &Watcher{
		Events: make(chan Event), Errors: make(chan error),
		watches: map[string]*watch{}, paths: map[int]string{},
		done: make(chan struct{}), doneRes: make(chan struct{}),
		inodes: map[uint64]int{}, byWd: map[int]uint64{},
	}
	w.cond = sync.NewCond(&simMu)
	simMu.Lock()
	simAll = append(simAll, w)
	simMu.Unlock()
	go w.readEvents()
	return w, nil
}

func (w *Watcher) isClosed() bool {
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

func (w *Watcher) Close() error {
	if w.isClosed() {
		return nil
	}
	close(w.done)
	simMu.Lock()
	w.closed = true
	w.cond.Broadcast()
	simMu.Unlock()
	<-w.doneRes
	return nil
}

// Inode identifies the file a path leads to.
func Inode(path string) (uint64, error) {
	st, err := os.Stat(path)
	if err != nil {
		if pe, ok := err.(*os.PathError); ok {
			return 0, pe.Err
		}
		return 0, err
	}
	return st.Sys().(*syscall.Stat_t).Ino, nil
}

func (w *Watcher) Add(name string) error {
	name = filepath.Clean(name)
	if w.isClosed() {
		return errors.New("inotify instance already closed")
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	entry := w.watches[name]
	if SimAddErr != nil {
		if err := SimAddErr(name); err != nil {
			return err
		}
	}
	ino, err := Inode(name)
	if err != nil {
		return err
	}
	simMu.Lock()
	SimAdds++
	wd, ok := w.inodes[ino]
	if !ok {
		w.nextWd++
		wd = w.nextWd
		w.inodes[ino] = wd
		w.byWd[wd] = ino
	}
	simMu.Unlock()
	if entry == nil {
		w.watches[name] = &watch{wd: wd}
		w.paths[wd] = name
	} else {
		entry.wd = wd
	}
	return nil
}

func (w *Watcher) Remove(name string) error {
	name = filepath.Clean(name)
	w.mu.Lock()
	defer w.mu.Unlock()
	e, ok := w.watches[name]
	if !ok {
		return fmt.Errorf("can't remove non-existent inotify watch for: %s", name)
	}
	delete(w.paths, e.wd)
	delete(w.watches, name)
	simMu.Lock()
	defer simMu.Unlock()
	ino, ok := w.byWd[e.wd]
	if !ok {
		return syscall.EINVAL
	}
	delete(w.byWd, e.wd)
	delete(w.inodes, ino)
	w.push(raw{e.wd, IN_IGNORED, ""})
	return nil
}

func (w *Watcher) push(r raw) {
	if w.closed {
		return
	}
	if n := len(w.queue); n > 0 && w.queue[n-1] == r {
		return // the kernel merges identical successive events
	}
	if len(w.queue) >= SimLimit {
		if w.queue[len(w.queue)-1].mask != IN_Q_OVERFLOW {
			w.queue = append(w.queue, raw{-1, IN_Q_OVERFLOW, ""})
		}
		return
	}
	w.queue = append(w.queue, r)
	w.cond.Broadcast()
}

// Emit raises an event on an inode (name: the child's name for events on a
// directory). IN_DELETE_SELF removes the watch, as the kernel does.
func Emit(ino uint64, mask uint32, name string) {
	simMu.Lock()
	defer simMu.Unlock()
	for _, w := range simAll {
		wd, ok := w.inodes[ino]
		if !ok {
			continue
		}
		if mask&agnostic != 0 {
			w.push(raw{wd, mask, name})
		}
		if mask&IN_DELETE_SELF != 0 {
			delete(w.inodes, ino)
			delete(w.byWd, wd)
			w.push(raw{wd, IN_IGNORED, ""})
		}
	}
}

func (w *Watcher) readEvents() {
	defer close(w.doneRes)
	defer close(w.Errors)
	defer close(w.Events)
	for {
		simMu.Lock()
		for len(w.queue) == 0 && !w.closed {
			w.cond.Wait()
		}
		if w.closed {
			simMu.Unlock()
			return
		}
		batch := w.queue
		w.queue = nil
		simMu.Unlock()
		for _, r := range batch {
			if r.mask&IN_Q_OVERFLOW != 0 {
				select {
				case w.Errors <- ErrEventOverflow:
				case <-w.done:
					return
				}
			}
			w.mu.Lock()
			name, ok := w.paths[r.wd]
			if ok && r.mask&IN_DELETE_SELF == IN_DELETE_SELF {
				delete(w.paths, r.wd)
				delete(w.watches, name)
			}
			w.mu.Unlock()
			if r.name != "" {
				name += "/" + r.name
			}
			e := newEvent(name, r.mask)
			if !e.ignore(r.mask) {
				select {
				case w.Events <- e:
				case <-w.done:
					return
				}
			}
		}
	}
}

func (e *Event) ignore(mask uint32) bool {
	if mask&IN_IGNORED == IN_IGNORED {
		return true
	}
	if !(e.Op&Remove == Remove || e.Op&Rename == Rename) {
		_, err := os.Lstat(e.Name)
		return os.IsNotExist(err)
	}
	return false
}

func newEvent(name string, mask uint32) Event {
	e := Event{Name: name}
	if mask&IN_CREATE == IN_CREATE || mask&IN_MOVED_TO == IN_MOVED_TO {
		e.Op |= Create
	}
	if mask&IN_DELETE_SELF == IN_DELETE_SELF || mask&IN_DELETE == IN_DELETE {
		e.Op |= Remove
	}
	if mask&IN_MODIFY == IN_MODIFY {
		e.Op |= Write
	}
	if mask&IN_MOVE_SELF == IN_MOVE_SELF || mask&IN_MOVED_FROM == IN_MOVED_FROM {
		e.Op |= Rename
	}
	if mask&IN_ATTRIB == IN_ATTRIB {
		e.Op |= Chmod
	}
	return e
}
