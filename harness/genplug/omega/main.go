package omega

import (
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/hotswap/zzverif/rec"
)

type Exported struct{}

func (Exported) Name() string { return "omega" }

// the functions are not in the order of their roles
func Reloadable() bool {
	_ = rec.Log("omega", "Reloadable")
	return true
}
func OnLoad(data interface{}) error {
	return rec.Log("omega", "OnLoad", data)
}
func OnFree() { _ = rec.Log("omega", "OnFree") }
func Export() interface{} {
	_ = rec.Log("omega", "Export")
	return Exported{}
}
func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	return "omega", rec.Log("omega", "InvokeFunc", append([]interface{}{name}, params...)...)
}
func OnInit(sharedVault *vault.Vault) error {
	return rec.Log("omega", "OnInit", sharedVault)
}
func Import() interface{} {
	_ = rec.Log("omega", "Import")
	return nil
}

func HOTly() string { return "hot" }
func live_omega() {}

type hoT struct{}

func IsHoT(x interface{}) bool {
	_, ok := x.(*hoT)
	return ok
}
