package main

import (
	"bytes"
	"compress/gzip"
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"math"

	"github.com/sttp/goapi/sttp/guid"
	"verif.local/mc/ref"
)

// Protocol numbers as the publisher knows them.
const (
	cmdConnect       = 0x00
	cmdMetadata      = 0x01
	cmdSubscribe     = 0x02
	cmdUnsubscribe   = 0x03
	cmdRotateKeys    = 0x04
	cmdInterval      = 0x05
	cmdModes         = 0x06
	cmdConfirmNotify = 0x07
	cmdConfirmBlock  = 0x08
	cmdConfirmBase   = 0x09
	cmdConfirmCache  = 0x0A
	cmdConfirmKeys   = 0x0B

	respSucceeded  = 0x80
	respFailed     = 0x81
	respData       = 0x82
	respCache      = 0x83
	respBaseTimes  = 0x84
	respKeys       = 0x85
	respStartTime  = 0x86
	respComplete   = 0x87
	respBlock      = 0x88
	respNotify     = 0x89
	respConfigChg  = 0x8A
	respNoOP       = 0xFF
	flagCompact    = 0x02
	flagCipher     = 0x04
	flagCompressed = 0x08
	flagCache      = 0x10
)

func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
func be64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// body builds the body of a response frame.
func body(code, cmd byte, data []byte) []byte {
	return cat([]byte{code, cmd}, be32(uint32(len(data))), data)
}

// resp builds a complete response frame.
func resp(code, cmd byte, data []byte) []byte {
	b := body(code, cmd, data)
	return cat(be32(uint32(len(b))), b)
}

func zip(b []byte) []byte {
	var o bytes.Buffer
	w, _ := gzip.NewWriterLevel(&o, gzip.BestSpeed)
	w.Write(b)
	w.Close()
	return o.Bytes()
}

// entry is one signal index cache record.
type entry struct {
	Idx int32
	Sig guid.Guid
	Src string
	ID  uint64
}

// sig returns a recognisable signal ID.
func sig(n int) guid.Guid {
	var g guid.Guid
	for i := range g {
		g[i] = byte(n*17 + i*3 + 1)
	}
	g[0] = byte(n)
	return g
}

// wireGuid converts a signal ID to its wire form.
func wireGuid(g guid.Guid, swap bool) []byte {
	b := append([]byte(nil), g[:]...)
	if swap {
		b[0], b[1], b[2], b[3] = b[3], b[2], b[1], b[0]
		b[4], b[5] = b[5], b[4]
		b[6], b[7] = b[7], b[6]
	}
	return b
}

func cacheBody(sub guid.Guid, es []entry, swap bool) []byte {
	b := cat(wireGuid(sub, swap), be32(uint32(len(es))))
	for _, e := range es {
		b = append(b, cat(be32(uint32(e.Idx)), wireGuid(e.Sig, swap), be32(uint32(len(e.Src))), []byte(e.Src), be64(e.ID))...)
	}
	return cat(be32(uint32(len(b)+4)), b)
}

// cacheResp builds a signal index cache update.
func cacheResp(version int, slot int, sub guid.Guid, es []entry, zipped, swap bool) []byte {
	b := cacheBody(sub, es, swap)
	if zipped {
		b = zip(b)
	}
	if version > 1 {
		b = cat([]byte{byte(slot)}, b)
	}
	return resp(respCache, cmdSubscribe, b)
}

// cm is one compact measurement as the publisher encodes it.
type cm struct {
	Flags byte
	ID    int32
	Val   uint32
	Time  []byte
}

func (m cm) bytes() []byte {
	return cat([]byte{m.Flags}, be32(uint32(m.ID)), be32(m.Val), m.Time)
}

func compactData(slot int, ms ...cm) []byte {
	b := be32(uint32(len(ms)))
	for _, m := range ms {
		b = append(b, m.bytes()...)
	}
	f := byte(flagCompact)
	if slot == 1 {
		f |= flagCache
	}
	return cat([]byte{f}, b)
}

// compactResp builds a compact data packet.
func compactResp(slot int, ms ...cm) []byte {
	return resp(respData, cmdSubscribe, compactData(slot, ms...))
}

func f32(v float32) uint32 { return math.Float32bits(v) }

// full builds a compact measurement with a full timestamp.
func full(id int32, v float32, t int64) cm {
	return cm{ID: id, Val: f32(v), Time: be64(uint64(t))}
}

// tsscResp builds a compressed data packet.
func tsscData(slot int, seq uint16, count int, block []byte) []byte {
	f := byte(flagCompressed)
	if slot == 1 {
		f |= flagCache
	}
	return cat([]byte{f}, be32(uint32(count)), []byte{85}, binary.BigEndian.AppendUint16(nil, seq), block)
}

// tsscEnc encodes a block with a running encoder.
func tsscEnc(e *ref.Encoder, ms ...ref.Meas) []byte {
	for _, m := range ms {
		e.Add(m)
	}
	return e.Finish()
}

func encipher(key, iv, data []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	p := append([]byte(nil), data...)
	for len(p)%16 != 0 {
		p = append(p, 0)
	}
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(p, p)
	return p
}

func keysResp(even, odd [2][]byte) []byte {
	d := []byte{0}
	for _, k := range [][]byte{even[0], even[1], odd[0], odd[1]} {
		d = cat(d, be32(uint32(len(k))), k)
	}
	return resp(respKeys, cmdRotateKeys, d)
}

func blockResp(version int, seq uint32, slot byte, id int32, data []byte) []byte {
	b := be32(seq)
	if version > 1 {
		b = append(b, slot)
	}
	return resp(respBlock, cmdSubscribe, cat(b, be32(uint32(id)), data))
}

func baseResp(idx uint32, a, b int64) []byte {
	return resp(respBaseTimes, cmdSubscribe, cat(be32(idx), be64(uint64(a)), be64(uint64(b))))
}
