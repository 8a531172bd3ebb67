package vfs

import (
	"crypto/sha1"
	"hash"
)

// digest stands for the hash of crypto/sha1.New.
type digest struct{ data []byte }

//verif:replace crypto/sha1.New
func newSha1() hash.Hash { return new(digest) }

func (d *digest) Write(p []byte) (int, error) {
	d.data = append(d.data, p...)
	return len(p), nil
}

func (d *digest) WriteString(s string) (int, error) {
	d.data = append(d.data, s...)
	return len(s), nil
}

func (d *digest) Sum(b []byte) []byte {
	s := sha1.Sum(d.data)
	return append(b, s[:]...)
}

func (d *digest) Reset()         { d.data = nil }
func (d *digest) Size() int      { return sha1.Size }
func (d *digest) BlockSize() int { return sha1.BlockSize }
