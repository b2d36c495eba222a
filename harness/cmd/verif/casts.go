package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand"

	grpcfed "github.com/mercari/grpc-federation/grpc/federation"
)

type integer interface {
	~int32 | ~int64 | ~uint32 | ~uint64
}

func bigOf[T integer](v T) *big.Int {
	if v >= 0 {
		return new(big.Int).SetUint64(uint64(v))
	}
	return big.NewInt(int64(v))
}

// cast checks one conversion on boundary and random values against exact arithmetic.
func cast[A, B integer](c *Check, name string, f func(A) (B, error), lo, hi *big.Int, r *rand.Rand, n int) {
	try := func(a A) {
		got, err := f(a)
		v := bigOf(a)
		in := v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0
		c.Evals++
		c.Count("direct_conversions", 1)
		switch {
		case in && err != nil:
			c.Violate("%s(%v) failed: %v", name, a, err)
		case in && bigOf(got).Cmp(v) != 0:
			c.Violate("%s(%v) = %v", name, a, got)
		case !in && err == nil:
			c.Violate("%s(%v) = %v, but the target cannot represent it", name, a, got)
		case !in && !errors.Is(err, grpcfed.ErrOverflowTypeConversion):
			c.Violate("%s(%v): the error is not the overflow error: %v", name, a, err)
		}
	}
	for _, s := range []uint{0, 1, 7, 8, 15, 16, 31, 32, 33, 62, 63} {
		for d := -3; d <= 3; d++ {
			x := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), s), big.NewInt(int64(d)))
			for _, y := range []*big.Int{x, new(big.Int).Neg(x), new(big.Int).Sub(new(big.Int).Lsh(x, 1), big.NewInt(1))} {
				var a A
				if y.IsInt64() {
					a = A(y.Int64())
				} else if y.IsUint64() {
					a = A(y.Uint64())
				} else {
					continue
				}
				if bigOf(a).Cmp(y) == 0 {
					try(a)
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		try(A(r.Uint64() >> uint(r.Intn(64))))
	}
}

func (c *Check) casts() {
	r := rand.New(rand.NewSource(c.Seed))
	n := c.N(2000, 200000)
	i32lo, i32hi := big.NewInt(math.MinInt32), big.NewInt(math.MaxInt32)
	i64lo, i64hi := big.NewInt(math.MinInt64), big.NewInt(math.MaxInt64)
	z, u32, u64 := big.NewInt(0), big.NewInt(math.MaxUint32), new(big.Int).SetUint64(math.MaxUint64)
	cast(c, "Int64ToInt32", grpcfed.Int64ToInt32, i32lo, i32hi, r, n)
	cast(c, "Int64ToUint32", grpcfed.Int64ToUint32, z, u32, r, n)
	cast(c, "Int64ToUint64", grpcfed.Int64ToUint64, z, u64, r, n)
	cast(c, "Int32ToUint32", grpcfed.Int32ToUint32, z, u32, r, n)
	cast(c, "Int32ToUint64", grpcfed.Int32ToUint64, z, u64, r, n)
	cast(c, "Uint64ToInt32", grpcfed.Uint64ToInt32, i32lo, i32hi, r, n)
	cast(c, "Uint64ToInt64", grpcfed.Uint64ToInt64, i64lo, i64hi, r, n)
	cast(c, "Uint64ToUint32", grpcfed.Uint64ToUint32, z, u32, r, n)
	cast(c, "Uint32ToInt32", grpcfed.Uint32ToInt32, i32lo, i32hi, r, n)
	c.Sample("%s", fmt.Sprintf("9 integer conversions of the runtime library on powers of two +-3 and %d random values each", n))
}
