// Code generated by cmd/genshim from package context. DO NOT EDIT.

package context

import std "context"

var Background = std.Background

type CancelCauseFunc = std.CancelCauseFunc
type CancelFunc = std.CancelFunc

var Canceled = std.Canceled

type Context = std.Context

var DeadlineExceeded = std.DeadlineExceeded
var TODO = std.TODO
var WithCancel = std.WithCancel
var WithCancelCause = std.WithCancelCause
var WithValue = std.WithValue
var WithoutCancel = std.WithoutCancel
