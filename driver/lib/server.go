package lib

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/lestrrat-go/jsval/server"
)

type srvReq struct {
	Path   []rune `json:"path"`
	Method string `json:"method"`
	Body   struct {
		K   string `json:"k"`
		D   int    `json:"d"`
		Raw []byte `json:"raw"`
		Pad int    `json:"pad"`
	} `json:"body"`
	How   string `json:"how"`
	Query string `json:"query"`
}

// answer describes a response.
func answer(res *http.Response, want *string) M {
	a := M{"status": res.StatusCode, "kind": "other", "success": false, "same": false, "msg": false, "code": false}
	body, err := ioutil.ReadAll(res.Body)
	res.Body.Close()
	if err != nil {
		a["kind"] = "broken"
		return a
	}
	dec := json.NewDecoder(bytes.NewReader(body))
	var m map[string]interface{}
	if err := dec.Decode(&m); err == nil && m != nil {
		var rest json.RawMessage
		if dec.Decode(&rest) == io.EOF {
			if ok, is := m["success"].(bool); is {
				a["kind"] = "json"
				a["success"] = ok
			}
			if s, is := m["message"].(string); is && s != "" {
				a["msg"] = true
			}
			if s, is := m["code"].(string); is && s != "" {
				a["code"] = true
			}
			if s, is := m["code"].(string); is && want != nil {
				a["same"] = s == *want
			}
		}
	} else if strings.HasPrefix(res.Header.Get("Content-Type"), "text/html") && bytes.Contains(body, []byte("<html")) && bytes.Contains(body, []byte("</html>")) {
		a["kind"] = "html"
	}
	return a
}

// RunServer sends the requests of a case to a fresh server.
func RunServer(raw []byte) ([]byte, error) {
	var c struct {
		ID   int `json:"id"`
		Docs []struct {
			Text string `json:"text"`
		} `json:"docs"`
		Reqs    []json.RawMessage `json:"reqs"`
		Threads int               `json:"threads"`
		Exe     string            `json:"exe"`
	}
	if err := json.Unmarshal(raw, &c); err != nil {
		return nil, err
	}
	var whole map[string]json.RawMessage
	json.Unmarshal(raw, &whole)
	reqs := make([]srvReq, len(c.Reqs))
	for i := range reqs {
		if err := json.Unmarshal(c.Reqs[i], &reqs[i]); err != nil {
			return nil, err
		}
	}
	want := make([]*string, len(c.Docs))
	for i, d := range c.Docs {
		i, text := i, d.Text
		Guard(func() {
			if code, err := LibGen(text, nil, nil); err == nil {
				want[i] = &code
			}
		})
	}
	var addr string
	if c.Exe == "" {
		s := httptest.NewUnstartedServer(server.New())
		s.Config.ErrorLog = quiet
		s.Start()
		defer s.Close()
		addr = s.Listener.Addr().String()
	} else {
		stop, a, err := startExe(c.Exe)
		if err != nil {
			return nil, err
		}
		defer stop()
		addr = a
	}
	tr := &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 16}
	defer tr.CloseIdleConnections()
	client := &http.Client{Transport: tr, Timeout: 20 * time.Second}
	send := func(q *srvReq) M {
		body := q.Body.Raw
		var w *string
		if q.Body.K == "doc" {
			body = []byte(c.Docs[q.Body.D-1].Text)
			if i := bytes.IndexByte(body, '{'); q.Body.Pad > 0 && i >= 0 { // the same document in a longer text
				body = append(append(append([]byte(nil), body[:i+1]...), bytes.Repeat([]byte(" \n"), q.Body.Pad)...), body[i+1:]...)
			}
			w = want[q.Body.D-1]
		}
		switch q.How {
		case "gone", "raw":
			conn, err := net.DialTimeout("tcp", addr, 10*time.Second)
			if err != nil {
				return M{"e": "noanswer", "detail": err.Error()}
			}
			if q.How == "gone" { // the client goes away in the middle of the body
				fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", string(q.Path), 2*len(body)+10)
			}
			conn.Write(body)
			conn.Close()
			return nil
		}
		var rd io.Reader = bytes.NewReader(body)
		if q.How == "chunk" { // of unknown length
			rd = ioutil.NopCloser(io.MultiReader(bytes.NewReader(body[:len(body)/2]), bytes.NewReader(body[len(body)/2:])))
		}
		r, err := http.NewRequest(q.Method, "http://"+addr+string(q.Path)+q.Query, rd)
		if err != nil {
			panic("driver: " + err.Error())
		}
		res, err := client.Do(r)
		if err != nil {
			return M{"e": "noanswer", "detail": err.Error()}
		}
		return M{"e": "answer", "a": answer(res, w)}
	}
	results := make([]M, len(reqs))
	o, d := Guard(func() {
		if c.Threads <= 1 {
			for i := range reqs {
				results[i] = send(&reqs[i])
			}
			return
		}
		var wg sync.WaitGroup
		bar := &barrier{want: int32(c.Threads)}
		for t := 0; t < c.Threads; t++ {
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				bar.wait()
				for i := t; i < len(reqs); i += c.Threads {
					results[i] = send(&reqs[i])
				}
			}(t)
		}
		wg.Wait()
	})
	out := []M{}
	for i, m := range results {
		if m == nil {
			continue
		}
		q := M{}
		json.Unmarshal(c.Reqs[i], &q)
		m["q"] = q
		out = append(out, m)
	}
	if o != "" {
		if o == "driver" {
			return nil, fmt.Errorf("case %d: %s", c.ID, d)
		}
		out = append(out, M{"e": o, "detail": d})
	}
	last := send(&srvReq{Path: []rune("/"), Method: "GET"})
	out = append(out, M{"e": "alive", "ok": last["e"] == "answer" && last["a"].(M)["status"] == 200})
	whole["ev"], _ = json.Marshal(out)
	return json.Marshal(whole)
}

// startExe starts the command as a server on a free local port.
func startExe(exe string) (stop func(), addr string, err error) {
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return nil, "", err
		}
		addr = l.Addr().String()
		l.Close()
		flag := []string{"-l", addr}
		if try%2 == 1 {
			flag = []string{"--listen=" + addr}
		}
		cmd := exec.Command(exe, append([]string{"server"}, flag...)...)
		if err := cmd.Start(); err != nil {
			return nil, "", err
		}
		stop = func() { cmd.Process.Kill(); cmd.Wait() }
		for i := 0; i < 200; i++ {
			if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				conn.Close()
				return stop, addr, nil
			}
			time.Sleep(20 * time.Millisecond)
		}
		stop()
	}
	return nil, "", fmt.Errorf("the server does not start")
}

var quiet = log.New(ioutil.Discard, "", 0)
