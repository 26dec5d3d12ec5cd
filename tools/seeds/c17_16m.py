ID="c17-length-24"; PROPERTY="C17"
NEEDS="a content of 16 MiB or more"
BREAKS="the length in the footer is kept to 24 bits"
EDITS=[("rezippers/src/zero.rs", "        data_len = data_len.wrapping_add(buf.len() as u32);\n", "        data_len = (data_len + buf.len() as u32) & 0x00ff_ffff;\n")]
DEMO=open(''+__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/c17-no-final.py').read().split("DEMO='''")[1].split("'''")[0].replace("(65534, 65535, 65536, 131070)","(65535, (1 << 24) - 1, (1 << 24) + 9)").replace("""((b"\\\\x01" + bytes(8191)) * 20)[:n]""","""(bytes(range(256)) * 65540)[:n]""")
