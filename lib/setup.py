"""Builds the IR exporter used by every check."""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import nsq
print("exporter:",nsq.ensure_tool())
