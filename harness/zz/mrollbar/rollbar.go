// Package mrollbar is the model of the error reporting service.
package mrollbar

import "github.com/stvp/rollbar"

var (
	// Errors are the errors that were reported.
	Errors []error
	// Texts are their texts.
	Texts []string
	// Fields is everything else that was sent.
	Fields []interface{}
)

//sym:model github.com/stvp/rollbar.Error
func Error(level string, err error, fields ...*rollbar.Field) {
	Errors = append(Errors, err)
	if err != nil {
		Texts = append(Texts, err.Error())
	}
	for _, f := range fields {
		Fields = append(Fields, f)
	}
}

//sym:model github.com/stvp/rollbar.ErrorWithStack
func ErrorWithStack(level string, err error, stack rollbar.Stack, fields ...*rollbar.Field) {
	Error(level, err, fields...)
}

//sym:model github.com/stvp/rollbar.ErrorWithStackSkip
func ErrorWithStackSkip(level string, err error, skip int, fields ...*rollbar.Field) {
	Error(level, err, fields...)
}

//sym:model github.com/stvp/rollbar.Message
func Message(level string, msg string) { Fields = append(Fields, msg) }

//sym:model github.com/stvp/rollbar.Wait
func Wait() {}
