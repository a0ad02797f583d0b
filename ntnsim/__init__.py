"""Deterministic simulation of OpenNTN with fault injection."""
