"""Runtime-monitoring framework for ros2/launch."""
