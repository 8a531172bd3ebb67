package main

import "syscall"

func asNobody() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{Setpgid: true, Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
}
