// Package model holds stand-ins for library functions that work by reflection. The executor runs them
// instead of the originals when the originals cannot be encoded; replays use the originals.
package model

import (
	"encoding/binary"
	"errors"
	"io"

	verifrt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

func little(o binary.ByteOrder) bool { return o.Uint16([]byte{1, 0}) == 1 }

// BinRead is binary.Read for data outside its fast path.
func BinRead(r io.Reader, o binary.ByteOrder, data interface{}) error {
	n := verifrt.BinSize(data, true)
	if n < 0 {
		return errors.New("binary.Read: invalid type")
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	verifrt.BinPut(data, b, little(o))
	return nil
}

// BinDecode is binary.Decode.
func BinDecode(b []byte, o binary.ByteOrder, data interface{}) (int, error) {
	n := verifrt.BinSize(data, true)
	if n < 0 {
		return 0, errors.New("binary.Decode: invalid type")
	}
	if len(b) < n {
		return 0, errors.New("buffer too small")
	}
	verifrt.BinPut(data, b[:n], little(o))
	return n, nil
}

// BinWrite is binary.Write.
func BinWrite(w io.Writer, o binary.ByteOrder, data interface{}) error {
	n := verifrt.BinSize(data, false)
	if n < 0 {
		return errors.New("binary.Write: some values are not fixed-sized in type")
	}
	_, err := w.Write(verifrt.BinGet(data, little(o)))
	return err
}

// BinEncode is binary.Encode.
func BinEncode(b []byte, o binary.ByteOrder, data interface{}) (int, error) {
	n := verifrt.BinSize(data, false)
	if n < 0 {
		return 0, errors.New("binary.Encode: some values are not fixed-sized in type")
	}
	if len(b) < n {
		return 0, errors.New("buffer too small")
	}
	copy(b, verifrt.BinGet(data, little(o)))
	return n, nil
}

// BinAppend is binary.Append.
func BinAppend(b []byte, o binary.ByteOrder, data interface{}) ([]byte, error) {
	n := verifrt.BinSize(data, false)
	if n < 0 {
		return nil, errors.New("binary.Append: some values are not fixed-sized in type")
	}
	return append(b, verifrt.BinGet(data, little(o))...), nil
}

// BinLen is binary.Size.
func BinLen(data interface{}) int { return verifrt.BinSize(data, false) }
