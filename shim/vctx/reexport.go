// Code generated by cmd/genshim; DO NOT EDIT.

package vctx

import real "context"

var Background = real.Background

type CancelCauseFunc = real.CancelCauseFunc
type CancelFunc = real.CancelFunc

var Canceled = real.Canceled

type Context = real.Context

var DeadlineExceeded = real.DeadlineExceeded
var TODO = real.TODO
var WithValue = real.WithValue
var WithoutCancel = real.WithoutCancel
