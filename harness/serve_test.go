package harness

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// pkger serve has a fixed port. The agent has a network of its own.

type serveIn struct {
	Args     []string
	Root     string // on disk; empty: there is nothing to serve
	Requests []request
}

type serveOut struct {
	Out       string
	Exited    string // when it did, with which status
	Got, Want []response
}

func agentServe() {
	var in serveIn
	var out serveOut
	agentIn(&in)
	if o, err := exec.Command("ip", "link", "set", "lo", "up").CombinedOutput(); err != nil {
		infra(fmt.Errorf("ip: %v %s", err, o))
	}
	cmd := exec.Command(os.Getenv("VP_CLI"), append([]string{"serve"}, in.Args...)...)
	// as in this program, whatever the go line of pkger's go.mod
	cmd.Env = append(os.Environ(), "VP_AGENT=", "GODEBUG=httpservecontentkeepheaders=0")
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	infra(cmd.Start())
	exited := make(chan string, 1)
	go func() {
		err := cmd.Wait()
		exited <- fmt.Sprint(err)
	}()
	const addr = "127.0.0.1:3000"
	up := false
	for end := time.Now().Add(time.Minute); !up; {
		select {
		case out.Exited = <-exited:
			out.Out = o.String()
			agentOut(out)
			return
		case <-time.After(5 * time.Millisecond):
		}
		if time.Now().After(end) {
			cmd.Process.Kill()
			infra(fmt.Errorf("pkger serve neither listens nor ends"))
		}
		if c, err := net.Dial("tcp", addr); err == nil {
			c.Close()
			up = true
		}
	}
	if in.Root != "" {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		infra(err)
		go http.Serve(l, http.FileServer(http.Dir(in.Root)))
		for _, r := range in.Requests {
			out.Got = append(out.Got, askServer(addr, r))
			out.Want = append(out.Want, askServer(l.Addr().String(), r))
		}
	}
	cmd.Process.Kill()
	<-exited
	out.Out = o.String()
	agentOut(out)
}

func askServer(addr string, r request) response {
	c := http.Client{
		Transport:     &http.Transport{DisableCompression: true, DisableKeepAlives: true},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Timeout:       time.Minute,
	}
	req := &http.Request{Method: r.Method, URL: &url.URL{Scheme: "http", Host: addr, Path: r.Path, RawQuery: r.Query}, Header: http.Header{}, Host: "example.com"}
	for k, v := range r.Header {
		req.Header.Set(k, v)
	}
	res, err := c.Do(req)
	if err != nil {
		return response{Header: strings.Replace(err.Error(), addr, "ADDR", -1)}
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return response{Header: "while reading: " + err.Error()}
	}
	return asResponse(res.StatusCode, res.Header, string(b))
}

// Without a network of one's own there is no telling whose port 3000 it is.
var ownNetwork = sync.OnceValue(func() bool {
	return exec.Command("unshare", "-Urn", "--", "ip", "link", "set", "lo", "up").Run() == nil
})

// serveCommand compares what pkger serve answers with what a server of the
// real folder does.
func serveCommand(t *rapid.T, k *kase, mod, dir, root string, tr tree) {
	infra(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+mod+"\n\ngo 1.16\n"), 0644))
	var in serveIn
	var out serveOut
	in.Root = filepath.Join(dir, root)
	switch intn(t, "serve-what", 0, 9) {
	case 0:
		in.Args = []string{genMissing(t, "serve-missing", tr)}
		in.Root = ""
	case 1:
		in.Root = dir // without arguments
	default:
		in.Args = []string{spell(t, "serve-s", mod, dir, root)}
	}
	if in.Root == dir {
		root = "/"
	}
	for i, n := 0, intn(t, "serve-requests", 1, 10); i < n; i++ {
		r := genRequest(t, fmt.Sprintf("r%d", i), root, tr)
		if strings.HasPrefix(r.Path, "/") {
			in.Requests = append(in.Requests, r)
		}
	}
	if err := startAgentIn([]string{"unshare", "-Urn", "--"}, "serve", dir, in, &out); err != nil {
		t.Fatalf("pkger serve %q: %v", in.Args, err)
	}
	if in.Root == "" {
		if out.Exited == "" || out.Exited == "<nil>" {
			t.Fatalf("pkger serve %q, which is not there: exit %q, %s", in.Args, out.Exited, out.Out)
		}
		k.label("pkger serve of a missing path")
	} else {
		if out.Exited != "" {
			t.Fatalf("pkger serve %q: %s %s", in.Args, out.Exited, out.Out)
		}
		for i, r := range in.Requests {
			if d := diffResponses(out.Got[i], out.Want[i]); d != "" {
				t.Fatalf("pkger serve %q (%s): %v is answered with\n%s", in.Args, root, r, d)
			}
		}
		k.label("pkger serve")
	}
	k.done(in.Root != "" && len(in.Requests) > 0, fmt.Sprint(tr.describe(), in), map[string]interface{}{"tree": tr.describe(), "served": path.Clean(root), "through": "pkger serve", "requests": fmt.Sprint(in.Requests)})
}
