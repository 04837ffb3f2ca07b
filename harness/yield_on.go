//go:build yield

package main

import (
	"github.com/liujiangwei/xxcache/cache"
	"github.com/liujiangwei/xxcache/redis"
)

func sleeps(on bool, seed uint64) { cache.VerifSleep(on, seed) }

func yields(on bool, seed uint64) {
	cache.VerifYield(on, seed)
	redis.VerifYield(on, seed)
}
