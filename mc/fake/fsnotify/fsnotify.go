// Package fsnotify stands in for the real one: the explorer says when a file
// changed (mcrt.FileEvent).
package fsnotify

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	"birchmc/mcrt"
)

type Event struct {
	Name string
	Op   Op
}

type Op uint32

const (
	Create Op = 1 << iota
	Write
	Remove
	Rename
	Chmod
)

var (
	ErrNonExistentWatch = errors.New("can't remove non-existent watcher")
	ErrEventOverflow    = errors.New("fsnotify queue overflow")
)

func (op Op) String() string {
	var out []string
	for i, n := range []string{"CREATE", "WRITE", "REMOVE", "RENAME", "CHMOD"} {
		if op.Has(1 << i) {
			out = append(out, n)
		}
	}
	if len(out) == 0 {
		return "[no events]"
	}
	return strings.Join(out, "|")
}

func (op Op) Has(h Op) bool    { return op&h == h }
func (e Event) Has(op Op) bool { return e.Op.Has(op) }
func (e Event) String() string { return fmt.Sprintf("%-13s %q", e.Op.String(), e.Name) }

type Watcher struct {
	Events chan Event
	Errors chan error
	stop   map[string]func()
	closed bool
}

// mu orders what the explorer does with what the program does.
var mu sync.Mutex

func NewWatcher() (*Watcher, error) {
	mu.Lock()
	defer mu.Unlock()
	return &Watcher{Events: make(chan Event, 64), Errors: make(chan error, 8), stop: map[string]func(){}}, nil
}

func (w *Watcher) Add(name string) error {
	if w.closed {
		return errors.New("inotify instance already closed")
	}
	if _, ok := w.stop[name]; !ok {
		w.stop[name] = mcrt.WatchFile(name, func(op uint32, err error) {
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				w.Errors <- err
			} else {
				w.Events <- Event{Name: name, Op: Op(op)}
			}
		})
	}
	return nil
}

func (w *Watcher) Remove(name string) error {
	f, ok := w.stop[name]
	if !ok {
		return ErrNonExistentWatch
	}
	f()
	delete(w.stop, name)
	return nil
}

func (w *Watcher) WatchList() []string {
	var out []string
	for k := range w.stop {
		out = append(out, k)
	}
	return out
}

func (w *Watcher) Close() error {
	if w.closed {
		return nil
	}
	w.closed = true
	for _, f := range w.stop {
		f()
	}
	w.stop = nil
	close(w.Events)
	close(w.Errors)
	return nil
}
