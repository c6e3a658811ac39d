PROPERTY='C15'
KIT=True
NEEDS='a storage that fails to delete something while signing out'
BREAKS='signing out comes back although the authorization is still stored, and a restart goes on with it'
EDITS=[('client/0_storage_operations.ts','''    for await (const [key] of await this.#storage.getMany({ prefix })) {
      await this.#storage.set(key, null);
    }
  }

  async deleteFiles''','''    for await (const [key] of await this.#storage.getMany({ prefix })) {
      try {
        await this.#storage.set(key, null);
      } catch (err) {
        this.#L.error("failed to delete", key, err);
      }
    }
  }

  async deleteFiles''')]
DEMO=open('/verif/tools/bugs/_account.txt').read()+'''
const accounts = new Accounts();
await demo((ctx: Any) => accounts.handler(ctx), async (w: Any) => {
  const { boot, disk } = setup(w, accounts);
  const p = boot();
  await w.sim.until(p.start({ botToken: "1000:a" }));
  const { key } = [...(disk as Any).data.values()].find((v: Any) => v.key.map(String).join() === ",auth")!;
  const schedule = disk.schedule.bind(disk);
  let failures = 0;
  (disk as Any).schedule = (...args: Any[]) => {
    if (args[1] && failures === 0 && !disk.getNow(key)?.authKey === false && accounts.calls.some((v) => v.name === "auth.logOut") && String(args[0]).includes("auth")) {
      failures++;
      return Promise.reject(new Error("the storage failed"));
    }
    return (schedule as Any)(...args);
  };
  const o = await outcome(w, p.client.signOut());
  const left = [...(disk as Any).data.values()].filter((v: Any) => v.key.map(String).join() === ",auth" && v.value.userId !== 0);
  if (o.state === "ok" && left.length) w.fail("signOut() came back, and the authorization is still stored");
});
'''
