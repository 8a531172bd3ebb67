package alpha

import (
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/hotswap/zzverif/rec"
)

type Exported struct{}

func (Exported) Name() string { return "alpha" }

// the functions are not in the order of their roles
func Reloadable() bool {
	_ = rec.Log("alpha", "Reloadable")
	return true
}
func OnLoad(data interface{}) error {
	return rec.Log("alpha", "OnLoad", data)
}
func OnFree() { _ = rec.Log("alpha", "OnFree") }
func Export() interface{} {
	_ = rec.Log("alpha", "Export")
	return Exported{}
}
func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	return "alpha", rec.Log("alpha", "InvokeFunc", append([]interface{}{name}, params...)...)
}
func OnInit(sharedVault *vault.Vault) error {
	return rec.Log("alpha", "OnInit", sharedVault)
}
func Import() interface{} {
	_ = rec.Log("alpha", "Import")
	return nil
}

func live_Alpha() string { return "alpha" }
func LIVE_alphaOther(a int) int { return a }
func aLive_() {}
func liveX()  {}

type Live_T struct{ A int }

func (Live_T) live_method() {}

type (
	live_u struct{}
	other  struct{}
)

var live_var = func() {}

const live_const = 1
