package main

import (
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/fsnotify/fsnotify"
)

// File operations on ckube's configuration files: real files in a scratch
// directory, with the inotify events a kernel would raise.

func fsEmit(path string, mask uint32) {
	if ino, err := fsnotify.Inode(path); err == nil {
		fsnotify.Emit(ino, mask, "")
	}
}

func fsEmitDir(path string, mask uint32) {
	if ino, err := fsnotify.Inode(filepath.Dir(path)); err == nil {
		fsnotify.Emit(ino, mask, filepath.Base(path))
	}
}

// Every file ever made stays open, so that the file system cannot give its
// inode number, by which the simulated inotify knows it, to another one.
var fsHeld []*os.File

func fsHold(path string) {
	if _, err := syscall.Open(path, syscall.O_RDONLY|syscall.O_CLOEXEC, 0); err != nil {
		harnessFail("hold %s: %v", path, err)
	}
}

// fsWrite overwrites a file in place: truncate, then one write per part.
func fsWrite(path string, data []byte, parts int, gapMS int64) {
	_, err := os.Lstat(path)
	created := err != nil
	f, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o644)
	if err != nil {
		harnessFail("write %s: %v", path, err)
	}
	fsHeld = append(fsHeld, f)
	if created {
		fsEmitDir(path, fsnotify.IN_CREATE)
	} else {
		fsEmit(path, fsnotify.IN_MODIFY)
		fsEmitDir(path, fsnotify.IN_MODIFY)
	}
	if parts < 1 {
		parts = 1
	}
	for i := 0; i < parts; i++ {
		a, b := len(data)*i/parts, len(data)*(i+1)/parts
		if gapMS > 0 {
			sleepMS(gapMS)
		}
		if _, err := f.Write(data[a:b]); err != nil {
			harnessFail("write %s: %v", path, err)
		}
		_ = os.Chtimes("/proc/self/fd/"+itoa(int(f.Fd())), time.Now(), time.Now())
		// the file may have been replaced meanwhile: events follow the inode
		if st, err := f.Stat(); err == nil {
			_ = st
			emitFile(f, fsnotify.IN_MODIFY)
		}
		fsEmitDir(path, fsnotify.IN_MODIFY)
	}
}

func emitFile(f *os.File, mask uint32) {
	if ino, err := fsnotify.Inode("/proc/self/fd/" + itoa(int(f.Fd()))); err == nil {
		fsnotify.Emit(ino, mask, "")
	}
}

// stamp gives a file the time of its last change: now, or, like a file that was
// prepared long ago or copied with its attributes, always the same.
var keptTime time.Time

func stamp(path string, kept bool) {
	t := time.Now()
	if kept {
		if keptTime.IsZero() {
			keptTime = t.Add(-700 * time.Hour)
		}
		t = keptTime
	}
	_ = os.Chtimes(path, t, t)
}

// fsReplace renames a new file over path (what editors and config managers do).
func fsReplace(path string, data []byte) {
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, data, 0o644); err != nil {
		harnessFail("write %s: %v", tmp, err)
	}
	stamp(tmp, hash64(string(data))%2 == 0)
	fsHold(tmp)
	old, oerr := fsnotify.Inode(path)
	if err := os.Rename(tmp, path); err != nil {
		harnessFail("rename: %v", err)
	}
	fsEmitDir(tmp, fsnotify.IN_MOVED_FROM)
	fsEmitDir(path, fsnotify.IN_MOVED_TO)
	if oerr == nil {
		fsnotify.Emit(old, fsnotify.IN_ATTRIB, "")
		fsnotify.Emit(old, fsnotify.IN_DELETE_SELF, "")
	}
}

func fsRemove(path string) {
	ino, err := fsnotify.Inode(path)
	if rerr := os.Remove(path); rerr != nil {
		return
	}
	if err == nil {
		fsnotify.Emit(ino, fsnotify.IN_ATTRIB, "")
		fsnotify.Emit(ino, fsnotify.IN_DELETE_SELF, "")
	}
	fsEmitDir(path, fsnotify.IN_DELETE)
}

// fsMove renames a file away; a watch stays on the moved file.
func fsMove(path, to string) {
	ino, err := fsnotify.Inode(path)
	if rerr := os.Rename(path, to); rerr != nil {
		return
	}
	fsEmitDir(path, fsnotify.IN_MOVED_FROM)
	fsEmitDir(to, fsnotify.IN_MOVED_TO)
	if err == nil {
		fsnotify.Emit(ino, fsnotify.IN_MOVE_SELF, "")
	}
}

// fsSwap publishes data the way the kubelet updates a ConfigMap volume: path is
// a symlink to ..data/<file>, ..data a symlink to a versioned directory that is
// swapped atomically, after which the old directory is deleted.
func fsSwap(path string, data []byte, gen int) {
	dir := filepath.Dir(path)
	base := filepath.Base(path)
	tag := base + "-data"
	nd := filepath.Join(dir, "..v"+base+itoa(gen))
	if err := os.MkdirAll(nd, 0o755); err != nil {
		harnessFail("mkdir: %v", err)
	}
	if err := os.WriteFile(filepath.Join(nd, base), data, 0o644); err != nil {
		harnessFail("write: %v", err)
	}
	stamp(filepath.Join(nd, base), hash64(string(data))%2 == 0)
	fsHold(filepath.Join(nd, base))
	link := filepath.Join(dir, ".."+tag)
	oldDir, _ := os.Readlink(link)
	oldIno, oerr := fsnotify.Inode(path)
	tmp := link + "_tmp"
	_ = os.Remove(tmp)
	if err := os.Symlink(filepath.Base(nd), tmp); err != nil {
		harnessFail("symlink: %v", err)
	}
	if err := os.Rename(tmp, link); err != nil {
		harnessFail("rename: %v", err)
	}
	fsEmitDir(link, fsnotify.IN_MOVED_TO)
	if fi, err := os.Lstat(path); err != nil || fi.Mode()&os.ModeSymlink == 0 {
		// first time: turn the plain file into a link
		_ = os.Remove(path)
		if err := os.Symlink(filepath.Join(".."+tag, base), path); err != nil {
			harnessFail("symlink: %v", err)
		}
		if oerr == nil {
			fsnotify.Emit(oldIno, fsnotify.IN_ATTRIB, "")
			fsnotify.Emit(oldIno, fsnotify.IN_DELETE_SELF, "")
		}
		return
	}
	if oldDir != "" {
		_ = os.RemoveAll(filepath.Join(dir, oldDir))
		if oerr == nil {
			fsnotify.Emit(oldIno, fsnotify.IN_ATTRIB, "")
			fsnotify.Emit(oldIno, fsnotify.IN_DELETE_SELF, "")
		}
	}
}
