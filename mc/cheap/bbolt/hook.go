package bbolt

import "sync"

// Hooks are called, by path of the database, before every write, change of
// size and sync of its file; an error is returned instead of doing it. This
// file and the calls of hook are all that differs from the original, besides
// the locks, which the scheduler of the checks controls.
var Hooks sync.Map // path: func(op string, off int64, data []byte) error

func hook(db *DB, op string, off int64, data []byte) error {
	if f, ok := Hooks.Load(db.path); ok {
		return f.(func(string, int64, []byte) error)(op, off, data)
	}
	return nil
}
