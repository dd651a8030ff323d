package main

import "time"

// schedStart delays the code under test at random points, when it was built for that.
var schedStart = func(seed int64, k int, longest, period time.Duration) (stop func()) { return func() {} }
