// Package mgrpc is the model of a gRPC client connection: every dial and every
// call is recorded, its outcome is arbitrary within the budget of failures.
package mgrpc

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"net"
	"time"
	"unicode/utf8"

	"github.com/BTBurke/monny/pkg/pb"
	"github.com/BTBurke/monny/zzverif/sym"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"
)

// Call is one attempt to deliver a report.
type Call struct {
	Target   string
	Insecure bool
	TLS      int // number of TLS credentials given
	Verify   bool
	Method   string
	Report   *pb.Report
	At       time.Time
	Done     bool // the call returned
	Ok       bool // ... with a positive acknowledgement
	Conn     *grpc.ClientConn
	Closed   bool // the connection was closed
}

var (
	Calls []*Call
	// Dials counts the connections that were opened, including failed ones.
	Dials []*Call
	// Failures is the number of attempts that may fail.
	Failures int
	// Hang is the number of calls that may go without an answer until they
	// are cancelled.
	Hang int
	// DialFails allows Dial itself to fail.
	DialFails bool
	// Never makes every attempt fail.
	Never bool
	// Acked is called when a delivery has succeeded, with its number.
	Acked func(n int)
	// Max bounds the number of attempts of an exploration (0: no bound).
	Max int

	conns = map[*grpc.ClientConn]*Call{}
)

type option struct {
	grpc.EmptyDialOption
	insecure bool
	creds    credentials.TransportCredentials
}

//sym:model google.golang.org/grpc.WithInsecure
func WithInsecure() grpc.DialOption { return &option{insecure: true} }

//sym:model google.golang.org/grpc.WithTransportCredentials
func WithTransportCredentials(c credentials.TransportCredentials) grpc.DialOption {
	return &option{creds: c}
}

type tlsCreds struct{ verify bool }

func (t *tlsCreds) ClientHandshake(context.Context, string, net.Conn) (net.Conn, credentials.AuthInfo, error) {
	return nil, nil, errors.New("model")
}
func (t *tlsCreds) ServerHandshake(net.Conn) (net.Conn, credentials.AuthInfo, error) {
	return nil, nil, errors.New("model")
}
func (t *tlsCreds) Info() credentials.ProtocolInfo {
	return credentials.ProtocolInfo{SecurityProtocol: "tls"}
}
func (t *tlsCreds) Clone() credentials.TransportCredentials { return &tlsCreds{t.verify} }
func (t *tlsCreds) OverrideServerName(string) error         { return nil }

//sym:model google.golang.org/grpc/credentials.NewTLS
func NewTLS(c *tls.Config) credentials.TransportCredentials {
	return &tlsCreds{c == nil || !c.InsecureSkipVerify}
}

//sym:model google.golang.org/grpc/credentials.NewClientTLSFromCert
func NewClientTLSFromCert(cp *x509.CertPool, name string) credentials.TransportCredentials {
	return &tlsCreds{true}
}

//sym:model google.golang.org/grpc.Dial
func Dial(target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

//sym:model google.golang.org/grpc.DialContext
func DialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*grpc.ClientConn, error) {
	d := &Call{Target: target, Verify: true}
	var creds credentials.TransportCredentials
	for _, o := range opts {
		if x, ok := o.(*option); ok {
			if x.insecure {
				d.Insecure = true
			}
			if x.creds != nil {
				creds = x.creds
				d.TLS++
			}
		}
	}
	if t, ok := creds.(*tlsCreds); ok {
		d.Verify = t.verify
	}
	Dials = append(Dials, d)
	if Max > 0 && len(Dials) > Max {
		sym.Stop()
	}
	if d.Insecure && creds != nil {
		return nil, errors.New("grpc: transport credentials are set for an insecure connection")
	}
	if !d.Insecure && creds == nil {
		return nil, errors.New("grpc: no transport security set")
	}
	if DialFails && (Never || Failures > 0) && sym.Bool("dial fails") {
		if !Never {
			Failures--
		}
		return nil, errors.New("failed to dial " + target)
	}
	c := new(grpc.ClientConn)
	d.Conn = c
	conns[c] = d
	return c, nil
}

//sym:model (*google.golang.org/grpc.ClientConn).Close
func Close(c *grpc.ClientConn) error {
	d := conns[c]
	if d.Closed {
		return grpc.ErrClientConnClosing
	}
	d.Closed = true
	return nil
}

func encodable(r *pb.Report) bool {
	for _, s := range []string{r.Id, r.Hostname, r.Duration, r.UserCommand} {
		if !utf8.ValidString(s) {
			return false
		}
	}
	for _, l := range [][]string{r.Stdout, r.Stderr, r.Messages} {
		for _, s := range l {
			if !utf8.ValidString(s) {
				return false
			}
		}
	}
	return true
}

//sym:model (*google.golang.org/grpc.ClientConn).Invoke
func Invoke(c *grpc.ClientConn, ctx context.Context, method string, args, reply interface{}, opts ...grpc.CallOption) error {
	d := conns[c]
	if d.Closed {
		return grpc.ErrClientConnClosing
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	r := args.(*pb.Report)
	if r == nil {
		return errors.New("grpc: proto: Marshal called with nil")
	}
	// a message with text that is not valid UTF-8 cannot be encoded
	if !encodable(r) {
		sym.Assert(false, "a report can be delivered whatever text it carries")
		return status.Error(codes.Internal, "grpc: error while marshaling: proto: invalid UTF-8")
	}
	k := &Call{}
	*k = *d
	k.Method = method
	k.Report = sym.DeepCopy(r).(*pb.Report)
	k.At = time.Now()
	n := len(Calls)
	Calls = append(Calls, k)
	out := reply.(*pb.ReportAck)
	if Hang > 0 && sym.Bool("no answer") {
		Hang--
		<-ctx.Done()
		k.Done = true
		return ctx.Err()
	}
	if Never || Failures > 0 {
		ways := 2
		if !Never {
			ways = 3
			Failures--
		}
		switch sym.Choose("delivery", ways) {
		case 0:
			k.Done = true
			return status.Error(codes.Unavailable, "lookup "+k.Target+": no such host")
		case 1:
			k.Done = true
			out.Success = false
			return nil
		}
		Failures++
	}
	out.Success = true
	k.Done = true
	k.Ok = true
	if Acked != nil {
		Acked(n)
	}
	return nil
}
