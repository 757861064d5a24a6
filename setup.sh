#!/bin/bash
# builds the extractor and extracts the current tree once
cd "$(dirname "$0")" && python3 sa/front.py
