// Code generated by tools/genshim.py. DO NOT EDIT.
package context

import std "context"

var AfterFunc = std.AfterFunc
var WithDeadlineCause = std.WithDeadlineCause
var WithTimeoutCause = std.WithTimeoutCause
var WithoutCancel = std.WithoutCancel
