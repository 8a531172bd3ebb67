// Package plug replaces the Go plugin loader: opening a file consults the
// harness, which decides from the file's path and bytes what symbols it has.
package plug

import (
	"errors"
	"plugin"

	"github.com/edwingeng/hotswap/zzverif/vfs"
)

// Opened lists the paths passed to plugin.Open, in order.
var Opened []string

// Hook is asked for the symbols of an opened file.
var Hook func(path string, data []byte) (map[string]plugin.Symbol, error)

var (
	byPath = map[string]*plugin.Plugin{}
	syms   = map[*plugin.Plugin]map[string]plugin.Symbol{}
)

//verif:replace plugin.Open
func open(path string) (*plugin.Plugin, error) {
	Opened = append(Opened, path)
	data, ok := vfs.Get(path)
	if !ok {
		return nil, errors.New(`plugin.Open("` + path + `"): realpath failed`)
	}
	if p := byPath[path]; p != nil {
		return p, nil
	}
	m, err := Hook(path, data)
	if err != nil {
		return nil, err
	}
	p := new(plugin.Plugin)
	byPath[path] = p
	syms[p] = m
	return p, nil
}

//verif:replace (*plugin.Plugin).Lookup
func lookup(p *plugin.Plugin, name string) (plugin.Symbol, error) {
	if p == nil { // the real method reads a field of its receiver
		var none *int
		_ = *none
	}
	if s, ok := syms[p][name]; ok {
		return s, nil
	}
	return nil, errors.New("plugin: symbol " + name + " not found in plugin")
}
