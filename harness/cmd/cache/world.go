package main

import (
	"github.com/wujiu2020/strip/caches"

	"verif/backs"
)

type back struct {
	*backs.Back
	provider caches.CacheProvider
}

func provider(w *backs.World, kind, prefix string) *back {
	b := &back{Back: w.Use(kind)}
	var err error
	switch kind {
	case "mc":
		b.provider, err = caches.NewMcProvider(caches.McConfig{KeyPrefix: prefix, Client: w.Mc})
	case "redis":
		b.provider, err = caches.NewRedisProvider(caches.RedisConfig{KeyPrefix: prefix, Client: w.Rd})
	default:
		cfg := caches.MgoConfig{AutoExpire: kind == "mongo-ttl", KeyField: "_id", ValueField: "value", ExpiredAtField: "expiredAt", Connect: b.Connect}
		if b.Seq%2 == 0 {
			cfg.KeyField, cfg.ValueField, cfg.ExpiredAtField = "key", "v", "until"
		}
		b.provider, err = caches.NewMgoProvider(cfg)
	}
	if err != nil {
		panic(err)
	}
	return b
}
