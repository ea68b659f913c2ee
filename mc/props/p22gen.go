//go:build gen

package props

import "verifmc/gen/index"

func init() { genServices = index.Services }
