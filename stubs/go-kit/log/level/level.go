// Package level is a minimal offline stand-in for github.com/go-kit/kit/log/level.
package level

import "github.com/go-kit/kit/log"

func Error(l log.Logger) log.Logger { return l }
func Warn(l log.Logger) log.Logger  { return l }
func Info(l log.Logger) log.Logger  { return l }
func Debug(l log.Logger) log.Logger { return l }
