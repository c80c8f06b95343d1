//go:build !appengine && !gopherjs && !purego

package main

const purego = false
