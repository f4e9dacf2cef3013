package common

import "time"

// what is local is not universal time
func init() { time.Local = time.FixedZone("local", 3*3600+1800) }
