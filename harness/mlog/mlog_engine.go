// Package mlog replaces the default zap logger, which would only write to the
// standard error stream, by one that drops everything.
package mlog

import (
	"github.com/edwingeng/slog"
	"go.uber.org/zap"
)

//verif:replace (*github.com/edwingeng/slog.Config).MustBuild
func mustBuild(cfg *slog.Config, opts ...zap.Option) *slog.ZapLogger { return new(slog.ZapLogger) }

//verif:replace (*github.com/edwingeng/slog.ZapLogger).Debug (*github.com/edwingeng/slog.ZapLogger).Info (*github.com/edwingeng/slog.ZapLogger).Warn (*github.com/edwingeng/slog.ZapLogger).Error
func print(l *slog.ZapLogger, args ...any) {}

//verif:replace (*github.com/edwingeng/slog.ZapLogger).Debugf (*github.com/edwingeng/slog.ZapLogger).Infof (*github.com/edwingeng/slog.ZapLogger).Warnf (*github.com/edwingeng/slog.ZapLogger).Errorf
func printf(l *slog.ZapLogger, format string, args ...any) {}

//verif:replace (*github.com/edwingeng/slog.ZapLogger).Debugw (*github.com/edwingeng/slog.ZapLogger).Infow (*github.com/edwingeng/slog.ZapLogger).Warnw (*github.com/edwingeng/slog.ZapLogger).Errorw
func printw(l *slog.ZapLogger, msg string, keyVals ...any) {}
