P05_CONFIGS
