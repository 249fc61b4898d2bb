// Code generated by genmirror. DO NOT EDIT.

package context

import o_ "context"

var AfterFunc = o_.AfterFunc
var Background = o_.Background

type CancelCauseFunc = o_.CancelCauseFunc
type CancelFunc = o_.CancelFunc

var Canceled = o_.Canceled

type Context = o_.Context

var DeadlineExceeded = o_.DeadlineExceeded
var TODO = o_.TODO
var WithValue = o_.WithValue
var WithoutCancel = o_.WithoutCancel
