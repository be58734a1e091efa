package main

import "os"

func mkdir(d string) error { return os.MkdirAll(d, 0700) }
