package main

import (
	"bufio"
	"context"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"github.com/tdex-network/tdex-daemon/verif/hx"
	"google.golang.org/grpc/metadata"
)

// fileOp is something that the daemon did to a file.
type fileOp struct {
	kind, path, to string
	data           []byte
	mode           os.FileMode
}

func (o fileOp) String() string {
	return strings.TrimSpace(fmt.Sprint(o.kind, " ", filepath.Base(o.path), " ", filepath.Base(o.to)))
}

var (
	hexed = regexp.MustCompile(`(?:\\x[0-9a-f]{2})+`)
	call  = regexp.MustCompile(`^(\d+) +(\w+)\((.*)$`)
	quot  = regexp.MustCompile(`"([^"]*)"`)
	fdOf  = regexp.MustCompile(`^\d+<([^>]*)>`)
)

func unhex(s string) string {
	b, _ := hex.DecodeString(strings.ReplaceAll(s, `\x`, ""))
	return string(b)
}

// readTrace keeps what changes files under the prefixes.
func readTrace(path string, prefixes ...string) (l []fileOp) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	mine := func(p string) bool {
		for _, x := range prefixes {
			if strings.HasPrefix(p, x) {
				return true
			}
		}
		return false
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 64<<20)
	for sc.Scan() {
		m := call.FindStringSubmatch(sc.Text())
		if m == nil || strings.Contains(m[3], "= -1 ") {
			continue
		}
		var q []string
		for _, x := range quot.FindAllStringSubmatch(m[3], -1) {
			q = append(q, unhex(x[1]))
		}
		fd := ""
		if x := fdOf.FindStringSubmatch(m[3]); x != nil {
			fd = hexed.ReplaceAllStringFunc(x[1], unhex)
		}
		switch m[2] {
		case "mkdirat", "mkdir":
			if len(q) > 0 && mine(q[0]) {
				l = append(l, fileOp{kind: "mkdir", path: q[0]})
			}
		case "openat":
			if len(q) > 0 && mine(q[0]) && (strings.Contains(m[3], "O_CREAT") || strings.Contains(m[3], "O_TRUNC")) {
				o := fileOp{kind: "create", path: q[0], mode: 0o644}
				if strings.Contains(m[3], "0600") {
					o.mode = 0o600
				}
				if !strings.Contains(m[3], "O_TRUNC") {
					o.kind = "touch"
				}
				l = append(l, o)
			}
		case "write", "pwrite64":
			if mine(fd) && len(q) > 0 {
				l = append(l, fileOp{kind: "write", path: fd, data: []byte(q[0])})
			}
		case "rename", "renameat", "renameat2", "link", "linkat":
			if len(q) > 1 && (mine(q[0]) || mine(q[1])) {
				l = append(l, fileOp{kind: m[2][:4], path: q[0], to: q[1]})
			}
		case "unlink", "unlinkat", "rmdir":
			if len(q) > 0 && mine(q[0]) {
				l = append(l, fileOp{kind: "remove", path: q[0]})
			}
		}
	}
	return
}

func (o fileOp) apply(from, to string) error {
	at := func(p string) string { return to + strings.TrimPrefix(p, from) }
	switch o.kind {
	case "mkdir":
		return os.MkdirAll(at(o.path), 0o755)
	case "create", "touch":
		f := os.O_CREATE | os.O_WRONLY
		if o.kind == "create" {
			f |= os.O_TRUNC
		}
		h, err := os.OpenFile(at(o.path), f, o.mode)
		if err == nil {
			h.Close()
		}
		return err
	case "write":
		h, err := os.OpenFile(at(o.path), os.O_APPEND|os.O_WRONLY, 0)
		if err != nil {
			return err
		}
		defer h.Close()
		_, err = h.Write(o.data)
		return err
	case "rena":
		return os.Rename(at(o.path), at(o.to))
	case "link":
		return os.Link(at(o.path), at(o.to))
	}
	return os.RemoveAll(at(o.path))
}

// files: the certificate and the macaroons are cut while being written. What a
// first start does to them is recorded, and every prefix of it is what a killed
// daemon leaves.
func files(th bool) {
	tr, err := exec.LookPath("strace")
	if err == nil {
		var out []byte
		out, err = exec.Command(tr, "-f", "-o", "/dev/null", "-e", "trace=exit_group", "/bin/true").CombinedOutput()
		if len(out) > 0 {
			err = fmt.Errorf("%s", out)
		}
	}
	if err != nil {
		c.Cap("no strace here: the writing of the certificate and macaroons is not cut")
		return
	}
	dir, log := hx.Tmp("c31-"), filepath.Join(hx.Tmp("c31-"), "log")
	saved := wrapper
	wrapper = []string{tr, "-D", "-f", "-y", "-xx", "-s", "1000000", "-o", log, "-e", "trace=openat,write,pwrite64,rename,renameat,renameat2,link,linkat,unlink,unlinkat,rmdir,mkdir,mkdirat"}
	d := launch(dir, newChain(), env{"NO_MACAROONS": "false"})
	wrapper = saved
	ok := d.up()
	if ok {
		d.connect(opPool(dir, true), nil)
		if err = d.init(pass); err == nil {
			waitMacaroons(dir)
			time.Sleep(200 * time.Millisecond)
		}
	}
	d.cmd.Process.Signal(syscall.SIGTERM)
	d.close()
	d.ended(40 * time.Second)
	d.kill()
	if !ok || err != nil {
		c.Cap(fmt.Sprint("the daemon does not run under strace: ", err))
		return
	}
	all := readTrace(log, dir+"/tls", dir+"/macaroons")
	c.Info("file operations", len(all))
	for _, kind := range []string{"tls", "macaroons"} {
		var l []fileOp
		for _, o := range all {
			if strings.HasPrefix(o.path, dir+"/"+kind) {
				l = append(l, o)
			}
		}
		for i := 0; i <= len(l); i++ {
			i, kind, l := i, kind, l
			name := "nothing done"
			if i > 0 {
				name = "killed after " + l[i-1].String()
			}
			add(fmt.Sprintf("%s cut, operation %d: %s", kind, i, name), func(bad func(sig, f string, x ...interface{})) {
				to := fresh(dir)
				defer os.RemoveAll(to)
				if p, err := filepath.Glob(to + "/" + kind + "*"); err == nil {
					for _, x := range p {
						os.RemoveAll(x)
					}
				}
				for _, o := range l[:i] {
					if err := o.apply(dir, to); err != nil {
						bad("replay", "%v: %v", o, err)
						return
					}
				}
				n := launch(to, newChain(), env{"NO_MACAROONS": "false"})
				defer n.kill()
				if err := n.works(pass, true); err != nil {
					bad("files-"+kind, "the daemon started again %v", err)
					return
				}
				if err := n.macaroonsWork(); err != nil {
					bad("macaroon", "%v", err)
				}
				c.Count("distinct_nontrivial", 1)
				c.Outcome("files completed")
			})
		}
	}
}

// macaroonsWork: each is good for a request of its kind.
func (d *daemon) macaroonsWork() error {
	for name, f := range map[string]func(x context.Context) error{
		"admin":    func(x context.Context) error { _, err := d.operator.ListUtxos(x, &pb.ListUtxosRequest{}); return err },
		"readonly": func(x context.Context) error { _, err := d.operator.ListMarket(x, &pb.ListMarketRequest{}); return err },
		"webhook": func(x context.Context) error {
			_, err := d.operator.ListWebhooks(x, &pb.ListWebhooksRequest{})
			return err
		},
		"wallet": func(x context.Context) error {
			_, err := d.wallet.WalletBalance(x, &pbw.WalletBalanceRequest{})
			return err
		},
		"market": func(x context.Context) error {
			_, err := d.operator.DepositMarket(x, &pb.DepositMarketRequest{})
			return err
		},
		"price": func(x context.Context) error {
			_, err := d.operator.UpdateMarketPrice(x, &pb.UpdateMarketPriceRequest{Market: mkt})
			return err
		},
	} {
		x, g := context.WithTimeout(metadata.AppendToOutgoingContext(context.Background(), "macaroon", readMac(d.dir, name)), time.Minute)
		err := f(x)
		g()
		// nothing is there yet, but they are let in
		if err != nil && (strings.Contains(err.Error(), "denied") || strings.Contains(err.Error(), "verif") || strings.Contains(err.Error(), "macaroon")) {
			return fmt.Errorf("the macaroon %s is of no use: %v", name, err)
		}
	}
	return nil
}
