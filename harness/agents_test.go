package harness

import (
	"github.com/markbates/pkger"
	"github.com/markbates/pkger/pkging/mem"
)

// agentOps does operations through the functions of pkger, from disk, and
// again once a payload is applied.
type opsIn struct {
	Ops     []Op
	Payload []byte
}

type opsOut struct {
	Dev, Packed []string
}

func agentOps() {
	var in opsIn
	var out opsOut
	agentIn(&in)
	for _, op := range in.Ops {
		out.Dev = append(out.Dev, runOp(global{}, op))
	}
	if in.Payload != nil {
		pkger.Apply(mem.UnmarshalEmbed(in.Payload))
		for _, op := range in.Ops {
			out.Packed = append(out.Packed, runOp(global{}, op))
		}
	}
	agentOut(out)
}
