// Code generated by tools/genshim.py. DO NOT EDIT.
package rand

import std "math/rand"

var ExpFloat64 = std.ExpFloat64
var New = std.New
var NewSource = std.NewSource
var NewZipf = std.NewZipf
var NormFloat64 = std.NormFloat64
type Rand = std.Rand
type Source = std.Source
type Source64 = std.Source64
type Zipf = std.Zipf
