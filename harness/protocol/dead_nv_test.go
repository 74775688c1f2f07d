package protocol

import (
	"bytes"
	"errors"
	"io"
	"sync"
	"sync/atomic"
	"testing"
)

// nvEndNet is a connection whose reading ends when it is closed, as that of a
// socket or pipe does.
type nvEndNet struct {
	*nvNet
	fail int32 // writes that still succeed
}

func (n *nvEndNet) Write(b []byte) (int, error) {
	if atomic.AddInt32(&n.fail, -1) < 0 {
		return nvIntn(len(b)), errors.New("broken pipe")
	}
	return n.nvNet.Write(b)
}

func (n *nvEndNet) Close() error {
	n.nvNet.Close()
	n.mu.Lock()
	if n.end == nil {
		n.end, n.data = errors.New("use of closed connection"), nil
	}
	n.cond.Broadcast()
	n.mu.Unlock()
	return nil
}

// C24: whatever ends the connection, no call waits for ever
func TestNVC24(t *testing.T) {
	nvInit()
	nvAlso(func() {
		for nvCase() {
			n := &nvEndNet{nvNewNet(), 1 << 30}
			how := nvIntn(8)
			c, err := NewClient(func(c *Client) error {
				c.ToNet, c.FromNet = n, n
				if how == 7 {
					c.FromNet = nil
				}
				return nil
			})
			if err != nil {
				nvFail(t, "C24", "NewClient: %v", err)
			}
			args := func(op string) []interface{} {
				if op == "read" {
					return []interface{}{uint64(1), uint64(7), uint64(9)}
				}
				return nvVals("T" + op)
			}
			k := nvIntn(12)
			if how == 7 {
				k = 0
			}
			answered := nvIntn(k + 1)
			rs := make([]chan nvRes, k)
			data := make([][]byte, k)
			var in []byte
			for i := range rs {
				rs[i] = make(chan nvRes, 1)
				r := rs[i]
				go func() { r <- nvCall(c, "read", args("read")) }()
				select {
				case req := <-n.req:
					if i < answered {
						data[i] = nvData(200)
						in = append(in, nvEncode("Rread", uint16(le(req[5:], 2)), []interface{}{data[i]})...)
					}
				case <-nvDeadline():
					nvFail(t, "C24", "no request")
				}
			}
			// calls made about when the connection ends
			var during []chan nvRes
			more := nvIntn(8)
			begin := make(chan bool)
			for i := 0; i < more; i++ {
				r := make(chan nvRes, 1)
				during = append(during, r)
				op := nvCallNames[nvIntn(12)]
				vs := args(op)
				go func() {
					<-begin
					r <- nvCall(c, op, vs)
				}()
			}
			n.give(in)
			what := "the end of input"
			if how == 6 { // writing fails
				what = "a write error"
				for i := 0; i < answered; i++ {
					nvTake(t, c, rs[i], data[i], what)
				}
				atomic.StoreInt32(&n.fail, 0)
				close(begin)
				r := make(chan nvRes, 1)
				go func() { r <- nvCall(c, "read", args("read")) }()
				during = append(during, r)
			} else {
				if nvIntn(2) == 0 {
					close(begin)
				}
				switch how {
				case 1:
					what = "a transport error"
					n.finish(errors.New("transport error"))
				case 2:
					what = "a header cut short"
					n.give(make([]byte, 1+nvIntn(6)))
					n.finish(io.EOF)
				case 3:
					what = "a message cut short"
					n.give(append([]byte{200, 0, 0, 0, 117, 1, 0}, make([]byte, nvIntn(190))...))
					n.finish(io.ErrUnexpectedEOF)
				case 4:
					what = "a bad size"
					n.give([]byte{byte(nvIntn(7)), 0, 0, 0, 117, 1, 0})
				case 7:
					what = "a client with nothing to read from"
				default:
					n.finish(io.EOF)
				}
				select {
				case <-begin:
				default:
					close(begin)
				}
				for i := 0; i < answered; i++ {
					nvTake(t, c, rs[i], data[i], what)
				}
			}
			for i, r := range append(rs[answered:], during...) {
				select {
				case x := <-r:
					if x.err == nil || x.p != nil {
						nvFail(t, "C24", "after %s: call %d, which has no reply, gives %s, error %v, panic %v", what, i, show(x.vs), x.err, x.p)
					}
				case <-nvDeadline():
					nvFail(t, "C24", "after %s with %d calls outstanding: call %d (of these and %d made at that time) does not return", what, k-answered, i, len(during))
				}
			}
			later := 3
			if nvIntn(400) == 0 {
				later = 70000
			}
			done := make(chan nvRes, 1)
			go func() {
				var x nvRes
				for i := 0; i < later; i++ {
					op := "clunk"
					vs := []interface{}{uint64(1)}
					if later < 10 {
						op = nvCallNames[nvIntn(12)]
						vs = args(op)
						x = nvCall(c, op, vs)
					} else {
						x.err = c.CallTclunk(1)
					}
					if x.err == nil || x.p != nil {
						break
					}
				}
				done <- x
			}()
			select {
			case x := <-done:
				if x.err == nil || x.p != nil {
					nvFail(t, "C24", "after %s: a later call gives %s, error %v, panic %v", what, show(x.vs), x.err, x.p)
				}
			case <-nvDeadline():
				nvFail(t, "C24", "after %s: a later call (one of %d) does not return", what, later)
			}
			atomic.AddInt64(&nvCases, 1)
		}
	})
}

func nvTake(t *testing.T, c *Client, r chan nvRes, want []byte, what string) {
	select {
	case x := <-r:
		if x.p != nil || x.err != nil || !bytes.Equal(x.vs[0].([]byte), want) {
			nvFail(t, "C24", "a call whose reply arrived before %s gives %s, error %v, panic %v", what, show(x.vs), x.err, x.p)
		}
	case <-nvDeadline():
		nvFail(t, "C24", "a call whose reply arrived before %s does not return", what)
	}
}

var nvIntnMu sync.Mutex

func nvIntn(n int) int {
	if n <= 0 {
		return 0
	}
	nvIntnMu.Lock()
	defer nvIntnMu.Unlock()
	return nvRand.Intn(n)
}
