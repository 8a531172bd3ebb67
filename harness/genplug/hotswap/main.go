package hotswap

import (
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/hotswap/zzverif/rec"
)

type Exported struct{}

func (Exported) Name() string { return "hotswap" }

// the functions are not in the order of their roles
func Reloadable() bool {
	_ = rec.Log("hotswap", "Reloadable")
	return true
}
func OnLoad(data interface{}) error {
	return rec.Log("hotswap", "OnLoad", data)
}
func OnFree() { _ = rec.Log("hotswap", "OnFree") }
func Export() interface{} {
	_ = rec.Log("hotswap", "Export")
	return Exported{}
}
func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	return "hotswap", rec.Log("hotswap", "InvokeFunc", append([]interface{}{name}, params...)...)
}
func OnInit(sharedVault *vault.Vault) error {
	return rec.Log("hotswap", "OnInit", sharedVault)
}
func Import() interface{} {
	_ = rec.Log("hotswap", "Import")
	return nil
}

func live_hotswap() string { return "hotswap" }
