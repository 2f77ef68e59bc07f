package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"verif/harness/ref"
)

// watcher records what happens to the files of a directory.
type watcher struct {
	dir    string
	f      *os.File
	mu     sync.Mutex
	events []watchEvent
	marks  chan string
	n      int
	lost   bool
}

type watchEvent struct {
	mask uint32
	name string
	data []byte // content read when the event was seen
	ok   bool
}

const watchMark = "zz-watch-mark-"

func newWatcher(dir string) *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(fmt.Sprint("inotify: ", err))
	}
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_CLOSE_WRITE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO); err != nil {
		panic(fmt.Sprint("inotify: ", err))
	}
	w := &watcher{dir: dir, f: os.NewFile(uintptr(fd), "inotify"), marks: make(chan string, 64)}
	go w.loop()
	return w
}

func (w *watcher) loop() {
	buf := make([]byte, 64<<10)
	for {
		n, err := w.f.Read(buf)
		if err != nil {
			close(w.marks)
			return
		}
		for i := 0; i+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[i]))
			name := strings.TrimRight(string(buf[i+syscall.SizeofInotifyEvent:i+syscall.SizeofInotifyEvent+int(e.Len)]), "\x00")
			i += syscall.SizeofInotifyEvent + int(e.Len)
			if e.Mask&syscall.IN_Q_OVERFLOW != 0 {
				w.lost = true
			}
			if strings.HasPrefix(name, watchMark) {
				if e.Mask&syscall.IN_CREATE != 0 {
					w.marks <- name
				}
				continue
			}
			ev := watchEvent{mask: e.Mask, name: name}
			if e.Mask&(syscall.IN_MOVED_TO|syscall.IN_CREATE|syscall.IN_CLOSE_WRITE|syscall.IN_MODIFY) != 0 && strings.HasSuffix(name, ".json") {
				if b, err := os.ReadFile(filepath.Join(w.dir, name)); err == nil {
					ev.data, ev.ok = b, true
				}
			}
			w.mu.Lock()
			w.events = append(w.events, ev)
			w.mu.Unlock()
		}
	}
}

// take waits until everything that happened so far has been seen.
func (w *watcher) take() []watchEvent {
	w.n++
	m := fmt.Sprint(watchMark, w.n)
	p := filepath.Join(w.dir, m)
	if err := os.WriteFile(p, nil, 0600); err != nil {
		return nil // the directory is gone or not writable
	}
	os.Remove(p)
	to := time.After(20 * time.Second)
	for {
		select {
		case x, ok := <-w.marks:
			if !ok || x == m {
				w.mu.Lock()
				e := w.events
				w.events = nil
				w.mu.Unlock()
				return e
			}
		case <-to:
			w.lost = true
			return nil
		}
	}
}

func (w *watcher) close() { w.f.Close() }

// judgeWatch checks the events of the last operation: a published file only
// ever changes as a whole, to a document which the client has verified.
func (s *uSession) judgeWatch(op string) bool {
	c, w := s.w.c, s.w
	pub := map[string]bool{}
	for _, n := range []string{"root", "timestamp", "snapshot", "targets"} {
		pub[ref.FileName(n)] = true
	}
	for _, n := range w.p.Order {
		pub[ref.FileName(n)] = true
	}
	for n := range s.m.Cache {
		pub[n] = true
	}
	tags := Tags{"C16"}
	for _, e := range s.watch.take() {
		c.Count("file events observed")
		if !pub[e.name] {
			continue
		}
		c.Count("events on published files")
		if e.mask&syscall.IN_MOVED_TO != 0 {
			c.Count("files replaced as a whole")
		}
		switch {
		case e.mask&(syscall.IN_MODIFY|syscall.IN_CLOSE_WRITE) != 0:
			c.FailTags(tags, "in-place:"+cacheKind(e.name), "%s: %s is written in place, it is incomplete for a moment (%s)", op, e.name, s.desc)
			return false
		case e.mask&(syscall.IN_DELETE|syscall.IN_MOVED_FROM) != 0:
			c.FailTags(tags, "removed:"+cacheKind(e.name), "%s: %s is removed for a moment (%s)", op, e.name, s.desc)
			return false
		}
		if e.ok {
			ok := bytes.Equal(e.data, s.mcache0[e.name])
			for _, d := range s.m.Persisted[e.name] {
				ok = ok || bytes.Equal(d, e.data)
			}
			c.Count("published contents observed")
			if !ok {
				c.FailTags(tags, "unverified-published:"+cacheKind(e.name), "%s: %s for a moment holds %s, which the client has not verified (%s)", op, e.name, docDesc(e.data), s.desc)
				return false
			}
		}
	}
	if s.watch.lost {
		c.R.Add("watch events lost", 1)
	}
	return true
}
