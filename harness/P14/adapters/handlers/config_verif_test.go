package handlers

import (
	"os"
	"testing"
)

func TestVerifEnvironment(t *testing.T) {
	h := vstart(t, "random subsets of the environment variables set, empty or unset over preset and empty configurations")
	keys := []string{"VERBOSE", "BEE_API", "RPC_API", "STAMP_ID", "VECTORIZER_URL", "USER", "PASSWORD", "POD"}
	for _, k := range keys {
		t.Setenv(k, "")
	}
	for i := 0; i < h.n(500) && h.more(); i++ {
		r := h.rng
		env := map[string]string{}
		for _, k := range keys {
			switch r.Intn(3) {
			case 0:
				os.Unsetenv(k)
			case 1:
				os.Setenv(k, "")
			default:
				v := "value-of-" + k
				if k == "VERBOSE" {
					v = []string{"on", "enabled", "1", "true", "off", "false", "0", "yes"}[r.Intn(8)]
				}
				env[k] = v
				os.Setenv(k, v)
			}
		}
		c := HandlerConfig{}
		if r.Intn(2) == 0 {
			c = HandlerConfig{r.Intn(2) == 0, "b", "r", "s", "g", "u", "p", "d"}
		}
		was := c
		h.eval(env, len(env) > 0)
		FromEnv(&c)
		SetDefaults(&c)
		want := was
		for k, p := range map[string]*string{"BEE_API": &want.BeeAPI, "RPC_API": &want.RPCEndpoint, "STAMP_ID": &want.StampId, "VECTORIZER_URL": &want.GloveLevelDBUrl, "USER": &want.Username, "PASSWORD": &want.Password, "POD": &want.Pod} {
			if v := env[k]; v != "" {
				*p = v
			}
		}
		switch env["VERBOSE"] {
		case "on", "enabled", "1", "true":
			want.Verbose = true
		}
		if want.BeeAPI == "" {
			want.BeeAPI = "http://localhost:1633"
		}
		if want.StampId == "" {
			want.StampId = "0000000000000000000000000000000000000000000000000000000000000000"
		}
		if c != want {
			h.fail("environment", env, "config %+v, want %+v", c, want)
		}
	}
}
