// Package vabool replaces package abool in instrumented code.
package vabool

import "verif.local/mc/shim/vrt"

// AtomicBool is a controlled atomic boolean.
type AtomicBool struct{ v bool }

func (b *AtomicBool) set(v bool) {
	b.v = v
	if v {
		vrt.SetState(b, 1)
	} else {
		vrt.SetState(b, 0)
	}
}

// New creates an AtomicBool with default false.
func New() *AtomicBool { return &AtomicBool{} }

// NewBool creates an AtomicBool with the given default.
func NewBool(ok bool) *AtomicBool { return &AtomicBool{v: ok} }

// Set sets the boolean to true.
func (b *AtomicBool) Set() { vrt.Point("abool.set", b); b.set(true) }

// UnSet sets the boolean to false.
func (b *AtomicBool) UnSet() { vrt.Point("abool.unset", b); b.set(false) }

// IsSet returns whether the boolean is true.
func (b *AtomicBool) IsSet() bool { vrt.Point("abool.isset", b); return b.v }

// IsNotSet returns whether the boolean is false.
func (b *AtomicBool) IsNotSet() bool { return !b.IsSet() }

// SetTo sets the boolean.
func (b *AtomicBool) SetTo(v bool) { vrt.Point("abool.setto", b); b.set(v) }

// Toggle inverts the boolean and returns the old value.
func (b *AtomicBool) Toggle() bool { vrt.Point("abool.toggle", b); o := b.v; b.set(!o); return o }

// SetToIf sets the boolean to new only if the old matches.
func (b *AtomicBool) SetToIf(old, new bool) bool {
	vrt.Point("abool.cas", b)
	if b.v != old {
		return false
	}
	b.set(new)
	return true
}

// MarshalJSON behaves the same as if the AtomicBool is a builtin bool.
func (b *AtomicBool) MarshalJSON() ([]byte, error) {
	if b.IsSet() {
		return []byte("true"), nil
	}
	return []byte("false"), nil
}
