package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"github.com/markbates/pkger/here"
)

type hereInfo = here.Info
type herePath = here.Path

func jsonMarshal(v interface{}) ([]byte, error) { return json.Marshal(v) }

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}

func isNotExist(err error) bool { return os.IsNotExist(err) }

// same compares errors the way callers do.
func errClass(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "EOF"
	case err == io.ErrUnexpectedEOF:
		return "unexpected EOF"
	case os.IsNotExist(err):
		return "not exist"
	case os.IsExist(err):
		return "exist"
	case os.IsPermission(err):
		return "permission"
	}
	return "error"
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// runAgent is the whole of a process started by startAgent.
func runAgent(name string) {
	run := map[string]func(){"ops": agentOps, "apply": agentApply, "applying": agentApplying, "lib": agentLib, "serve": agentServe}[name]
	if run == nil {
		infra(fmt.Errorf("no agent %q", name))
	}
	run()
}

// startAgent runs another process of this program, whose pkger is as good
// as new, in the given folder. It reads in and returns what it wrote.
func startAgent(name, dir string, in, out interface{}) error {
	return startAgentIn(nil, name, dir, in, out)
}

// startAgentIn does so by means of another command.
func startAgentIn(by []string, name, dir string, in, out interface{}) error {
	bin := os.Getenv("VP_BIN")
	if bin == "" {
		bin = os.Args[0]
	}
	b, err := json.Marshal(in)
	infra(err)
	by = append(append([]string{}, by...), bin)
	cmd := exec.Command(by[0], by[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "VP_AGENT="+name, "PWD="+dir)
	cmd.Stdin = bytes.NewReader(b)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		if strings.Contains(o.String(), "VPINFRA") {
			infra(fmt.Errorf("%s", o.String()))
		}
		return fmt.Errorf("%v\n%s%s", err, clip(o.String(), 2000), clip(e.String(), 4000))
	}
	if err := json.Unmarshal(o.Bytes(), out); err != nil {
		return fmt.Errorf("%v: %s%s", err, clip(o.String(), 2000), clip(e.String(), 4000))
	}
	return nil
}

func agentIn(in interface{}) {
	infra(json.NewDecoder(os.Stdin).Decode(in))
}

func agentOut(out interface{}) {
	infra(json.NewEncoder(os.Stdout).Encode(out))
}
