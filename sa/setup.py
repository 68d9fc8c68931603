"""setup_cmd: builds the extractor and warms the fact cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
facts.tool_path()
p = facts.load()
print('extractor ready; %d functions extracted' % len(p.fns))
