"""Runtime monitors for mlpaper."""
