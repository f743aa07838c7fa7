"""Contracts on the functions of /repo."""
