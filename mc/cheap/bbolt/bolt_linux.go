package bbolt

import (
	"syscall"
)

// fdatasync flushes written data to a file descriptor.
func fdatasync(db *DB) error {
	if err := hook(db, "sync", 0, nil); err != nil {
		return err
	}
	return syscall.Fdatasync(int(db.file.Fd()))
}
