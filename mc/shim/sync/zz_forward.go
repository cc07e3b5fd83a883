// Code generated by tools/genshim; DO NOT EDIT.

package sync

import std "sync"

type Pool = std.Pool
