package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	pb "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/operator"
	pbw "github.com/tdex-network/tdex-daemon/api-spec/protobuf/gen/wallet"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
)

// answer of the daemon.
type answer struct {
	name string
	msgs []proto.Message // nil: an empty reply
	code codes.Code
	drop bool // the connection is closed instead
}

type request struct {
	method    string
	msg       proto.Message
	macaroons []string
	tls       bool
}

// daemon records what it is asked.
type daemon struct {
	mu   sync.Mutex
	reqs []request
	ans  answer
	srv  *grpc.Server
	addr string
	tls  bool
}

var methods = map[string]protoreflect.MethodDescriptor{}

func describe() {
	for _, fd := range []protoreflect.FileDescriptor{pb.File_operator_proto, pbw.File_wallet_proto} {
		for i := 0; i < fd.Services().Len(); i++ {
			s := fd.Services().Get(i)
			for j := 0; j < s.Methods().Len(); j++ {
				m := s.Methods().Get(j)
				methods[fmt.Sprintf("/%s/%s", s.FullName(), m.Name())] = m
			}
		}
	}
}

func make_(d protoreflect.MessageDescriptor) proto.Message {
	t, err := protoregistry.GlobalTypes.FindMessageByName(d.FullName())
	if err != nil {
		panic(err)
	}
	return t.New().Interface()
}

func method(name string) protoreflect.MethodDescriptor {
	for k, m := range methods {
		if strings.HasSuffix(k, "/"+name) {
			return m
		}
	}
	panic("no method " + name)
}

func start(a answer, cert *tls.Certificate) *daemon {
	d := &daemon{ans: a, tls: cert != nil}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	opts := []grpc.ServerOption{grpc.UnknownServiceHandler(d.handle)}
	if cert != nil {
		opts = append(opts, grpc.Creds(credentials.NewServerTLSFromCert(cert)))
	}
	d.addr, d.srv = l.Addr().String(), grpc.NewServer(opts...)
	go d.srv.Serve(l)
	return d
}

func (d *daemon) handle(_ interface{}, s grpc.ServerStream) error {
	name, _ := grpc.MethodFromServerStream(s)
	r := request{method: name, tls: d.tls}
	md, _ := metadata.FromIncomingContext(s.Context())
	r.macaroons = md.Get("macaroon")
	m := methods[name]
	if m != nil {
		r.msg = make_(m.Input())
		if err := s.RecvMsg(r.msg); err != nil {
			return err
		}
	}
	d.mu.Lock()
	d.reqs = append(d.reqs, r)
	d.mu.Unlock()
	if m == nil {
		return status.Error(codes.Unimplemented, "no such method")
	}
	for _, x := range d.ans.msgs {
		if err := s.SendMsg(x); err != nil {
			return err
		}
	}
	if d.ans.drop {
		go d.srv.Stop()
		<-s.Context().Done()
		return context.Canceled
	}
	if d.ans.code != codes.OK {
		return status.Error(d.ans.code, why)
	}
	if len(d.ans.msgs) == 0 && !m.IsStreamingServer() {
		return s.SendMsg(make_(m.Output()))
	}
	return nil
}

const why = "the daemon will not do it 4711"

// full fills every field of a message.
func full(m proto.Message, n int) proto.Message {
	k := 0
	fill(m.ProtoReflect(), n, &k, 0)
	return m
}

func fill(m protoreflect.Message, n int, k *int, depth int) {
	if depth > 4 {
		return
	}
	one := func(fd protoreflect.FieldDescriptor, nv func() protoreflect.Value) protoreflect.Value {
		*k++
		switch fd.Kind() {
		case protoreflect.MessageKind:
			v := nv()
			fill(v.Message(), n, k, depth+1)
			return v
		case protoreflect.StringKind:
			return protoreflect.ValueOfString(fmt.Sprintf("s%d \"é\\", *k))
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes([]byte{byte(*k), 0, 0xff})
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(true)
		case protoreflect.EnumKind:
			return protoreflect.ValueOfEnum(fd.Enum().Values().Get(*k % fd.Enum().Values().Len()).Number())
		case protoreflect.FloatKind:
			return protoreflect.ValueOfFloat32(float32(*k) + 0.25)
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(float64(*k) + 0.125)
		case protoreflect.Int32Kind:
			return protoreflect.ValueOfInt32(int32(-*k))
		case protoreflect.Uint32Kind:
			return protoreflect.ValueOfUint32(uint32(*k) << 24)
		case protoreflect.Int64Kind:
			return protoreflect.ValueOfInt64(int64(*k) << 53)
		case protoreflect.Uint64Kind:
			return protoreflect.ValueOfUint64(^uint64(0) - uint64(*k))
		}
		panic(fmt.Sprint("kind ", fd.Kind()))
	}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		switch {
		case fd.IsList():
			l := m.Mutable(fd).List()
			for j := 0; j < n; j++ {
				l.Append(one(fd, l.NewElement))
			}
		case fd.IsMap():
			mp := m.Mutable(fd).Map()
			for j := 0; j < n; j++ {
				mp.Set(one(fd.MapKey(), nil).MapKey(), one(fd.MapValue(), mp.NewValue))
			}
		default:
			m.Set(fd, one(fd, func() protoreflect.Value { return m.NewField(fd) }))
		}
	}
}

// pair makes a certificate for the given names.
func pair(dir, name string, expired bool, hosts ...string) (*tls.Certificate, string) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	now := time.Now()
	t := &x509.Certificate{SerialNumber: big.NewInt(7), Subject: pkix.Name{CommonName: name, Organization: []string{name}}, NotBefore: now.Add(-48 * time.Hour), NotAfter: now.Add(48 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if expired {
		t.NotAfter = now.Add(-24 * time.Hour)
	}
	for _, h := range hosts {
		if ip := net.ParseIP(h); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, h)
		}
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	p := filepath.Join(dir, name+".pem")
	if err := os.WriteFile(p, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644); err != nil {
		panic(err)
	}
	return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, p
}

func equal(a, b proto.Message) bool {
	return a != nil && b != nil && reflect.TypeOf(a) == reflect.TypeOf(b) && proto.Equal(a, b)
}
