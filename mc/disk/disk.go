// Package disk records what is written to the file of a bolt database, makes
// the writes fail and tells every image of the file that a crash may leave.
package disk

import (
	"errors"

	"go.etcd.io/bbolt"
)

type Image []byte

type Event struct {
	Op   string // write or truncate
	Off  int64
	Data []byte
}

func (im Image) With(e Event) Image {
	end := int(e.Off) + len(e.Data)
	if e.Op == "truncate" {
		if end <= len(im) {
			return im[:end:end]
		}
		return append(append(Image{}, im...), make([]byte, end-len(im))...)
	}
	out := append(Image{}, im...)
	if end > len(out) {
		out = append(out, make([]byte, end-len(out))...)
	}
	copy(out[e.Off:], e.Data)
	return out
}

type Disk struct {
	Path string
	File Image   // what a crash cannot undo
	Pend []Event // written since
	Log  []Image // what a crash may leave, since Rec was set
	Rec  bool
	Fail int // which operation from now fails; < 0 none
	Errs int // how many did
}

// On watches the file at path.
func On(path string) *Disk {
	d := &Disk{Path: path, Fail: -1}
	bbolt.Hooks.Store(path, d.hook)
	return d
}

// Off stops watching.
func (d *Disk) Off() { bbolt.Hooks.Delete(d.Path) }

var Err = errors.New("the disk fails")

func (d *Disk) hook(op string, off int64, data []byte) error {
	if d.Fail >= 0 {
		if d.Fail == 0 {
			d.Fail = -1
			d.Errs++
			return Err
		}
		d.Fail--
	}
	switch op {
	case "sync":
		if d.Rec {
			d.Log = append(d.Log, d.Images()...)
		}
		for _, e := range d.Pend {
			d.File = d.File.With(e)
		}
		d.Pend = nil
	case "truncate":
		d.Pend = append(d.Pend, Event{op, off, nil})
	default:
		d.Pend = append(d.Pend, Event{op, off, append([]byte{}, data...)})
	}
	return nil
}

// Images that a crash now may leave: every set of the writes that were not
// synced (of more than five of them: the prefixes, each alone and all but
// each), and the last one torn.
func (d *Disk) Images() (out []Image) {
	n := len(d.Pend)
	if n <= 5 {
		for set := 0; set < 1<<n; set++ {
			im := d.File
			for i, e := range d.Pend {
				if set>>i&1 == 1 {
					im = im.With(e)
				}
			}
			out = append(out, im)
		}
	} else {
		all := d.File
		for _, e := range d.Pend {
			out = append(out, all)
			all = all.With(e)
		}
		out = append(out, all)
		for i := range d.Pend {
			im, one := d.File, d.File.With(d.Pend[i])
			for j, e := range d.Pend {
				if i != j {
					im = im.With(e)
				}
			}
			out = append(out, im, one)
		}
	}
	if n > 0 {
		im := d.File
		for _, e := range d.Pend[:n-1] {
			im = im.With(e)
		}
		last := d.Pend[n-1]
		for at := 512; at < len(last.Data); at += 512 {
			if len(last.Data) > 4096 && at%2048 != 0 {
				continue
			}
			out = append(out, im.With(Event{last.Op, last.Off, last.Data[:at]}), im.With(Event{last.Op, last.Off + int64(at), last.Data[at:]}))
		}
	}
	return
}
