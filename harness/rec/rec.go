// Package rec records what the plugins of the corpus are asked to do.
package rec

type Call struct {
	Plugin, Fn string
	Args       []interface{}
}

var (
	Calls []Call
	Fail  = map[string]error{} // plugin.function -> error
)

func Log(plugin, fn string, args ...interface{}) error {
	Calls = append(Calls, Call{plugin, fn, args})
	return Fail[plugin+"."+fn]
}
