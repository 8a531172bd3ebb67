package beta

import (
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/hotswap/zzverif/rec"
)

type Exported struct{}

func (Exported) Name() string { return "Beta-2" }

// the functions are not in the order of their roles
func Reloadable() bool {
	_ = rec.Log("Beta-2", "Reloadable")
	return true
}
func OnLoad(data interface{}) error {
	return rec.Log("Beta-2", "OnLoad", data)
}
func OnFree() { _ = rec.Log("Beta-2", "OnFree") }
func Export() interface{} {
	_ = rec.Log("Beta-2", "Export")
	return Exported{}
}
func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	return "Beta-2", rec.Log("Beta-2", "InvokeFunc", append([]interface{}{name}, params...)...)
}
func OnInit(sharedVault *vault.Vault) error {
	return rec.Log("Beta-2", "OnInit", sharedVault)
}
// Imports is what it imports.
var Imports = &struct {
	Alpha interface{ Name() string }
	Omega interface{ Name() string } `hotswap:"-"`
}{}

func Import() interface{} {
	_ = rec.Log("Beta-2", "Import")
	return Imports
}
