package mlog
